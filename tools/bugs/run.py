import sys,os,subprocess,shutil,concurrent.futures as cf,importlib.util,time
f=sys.argv[1]; sel=sys.argv[2:]
spec=importlib.util.spec_from_file_location("b",f); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
def run(i):
    name,prop,edits=m.B[i]
    w=f"/tmp/vpbug_w{os.getpid()}_{i}"
    subprocess.check_call(["rsync","-a","--exclude",".git",os.environ.get("BASE","/repo")+"/",w+"/"])
    try:
        for fn,old,new in edits:
            p=w+"/"+fn; s=open(p).read()
            if s.count(old)!=1: return name,prop,f"BADEDIT {s.count(old)} {fn}: {old[:50]!r}"
            open(p,"w").write(s.replace(old,new))
            if fn.endswith(".py"):
                compile(s.replace(old,new),fn,"exec")
        t=time.time()
        r=subprocess.run(["nice","-n","15","bin/check",prop,"--seed","1"],cwd=os.environ.get("VERIF", "/verif"),env=dict(os.environ,VP_REPO=w,VP_SUMMARY="1",VP_RETURNN_CACHE_DIR="/tmp/nc"),timeout=600,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        last=r.stdout.strip().splitlines()
        su=[l for l in last if "cases" in l and "[quick]" in l]
        return name,prop,f"rc={r.returncode} {time.time()-t:.0f}s {'CAUGHT' if r.returncode==1 else 'MISSED' if r.returncode==0 else 'ERR '+' / '.join(last[-3:])[:300]}"
    finally: shutil.rmtree(w,ignore_errors=True)
idx=[i for i,b in enumerate(m.B) if not sel or b[0] in sel or b[1] in sel]
with cf.ThreadPoolExecutor(int(os.environ.get("J","2"))) as ex:
    for fu in cf.as_completed([ex.submit(run,i) for i in idx]): print(*fu.result(),flush=True)
