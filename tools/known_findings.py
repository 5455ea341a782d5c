import subprocess
M={"975c7fa":"C01","21fd8b0":"C20","b2505f2":"C21","1d9cb58":"C17","9728afb":"C01","1e2a0b2":"C17","31e66d8":"C15","4a5b906":"C15","f9d28a5":"C15","73e1592":"C19","b74705b":"C19","40786dc":"C06","f0d6c06":"C06","da00218":"C09","6ce6ba3":"C12","9a858ce":"C10","596fda8":"C08","5ac4e21":"C12","aedc340":"C07","7ee2a08":"C13","a17cdd8":"C21","3be542d":"C21","01dc171":"C13","6f5bffe":"C05","5322151":"C05","db2da44":"C05","9f7927c":"C18","b5deff8":"C04","bce8b4d":"C03","852ee2f":"C05","23cf3ec":"C05","dda4f1c":"C16","7a48169":"C14","f094495":"C15","a2c521e":"C14","b33aaf2":"C17","52bbb56":"C10","766ef83":"C14","dc2d4b4":"C15","3751b1c":"C14","c38b513":"C16","f90889d":"C17","1bb6dbf":"C12","75cc158":"C21","09bf3e5":"C21","bb3534a":"C22","a0d53d3":"C21","3c20af3":"C23","b6e8973":"C25","b61adb7":"C25","f8e5d40":"C25","408dc91":"C05","5df3bf6":"C09","1b71019":"C15","c890240":"C09","31919fa":"C10","b644f6d":"C10","50e8420":"C15"}
M.update({h:"C20" for h in "90e6ed7 01408a5 f0de51f 800e6d6 ea8f271 dc4a261 f88f45a c174d5e aa907b7 1cd8600 8e90363 3bebbc2".split()})
out=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s","f5f423e..HEAD"],text=True)
print("# Genuine defects of alexbovet/flow_stability.\n# 'finding:' lines are recorded and not repaired (the check prints KNOWN-FINDING for them);\n# 'fixed:' lines are repaired in /repo and suppress nothing.")
print('finding: property=C20 monitor=static-own match=no~static~clustering~of~the~adjacencies~saved~by~run_laplacians_transmats -- run_clusterings --compute_static_clustering looks for {net_name}_static_A_{start}_to_{stop}.pickle in its datadir, files that no script writes: the adjacencies saved with run_laplacians_transmats --save_static_adjacencies are not found and no static clustering is computed')
for l in out.splitlines():
    h,_,s=l.partition(" ")
    print(f"fixed: property={M[h]} {h} {s.removeprefix('fix: ')}")
