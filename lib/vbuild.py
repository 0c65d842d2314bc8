"""Builds verification binaries from /repo's working tree plus /verif/harness."""
import os, subprocess, sys, glob, hashlib, sysconfig
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("VERIF_REPO","/repo")
BUILD=os.environ.get("VERIF_BUILD",os.path.join(VERIF,"build"))
SYSPY="/usr/bin/python3"
def _pyflags():
    out=subprocess.check_output([SYSPY,"-c","import sysconfig,numpy;print(sysconfig.get_paths()['include']);print(numpy.get_include());print(sysconfig.get_config_var('LDVERSION') or sysconfig.get_python_version())"],text=True).split()
    return out
def _overlay(name,subs):
    """copy of /repo/src in which some constants are changed (re.sub on single files); returns the new root"""
    import re,shutil
    root=os.path.join(BUILD,"tree-"+name)
    shutil.rmtree(root,ignore_errors=True)
    shutil.copytree(os.path.join(REPO,"src"),os.path.join(root,"src"),ignore=shutil.ignore_patterns("build","*.o","CMakeFiles","*.a","*.so"))
    for rel,pat,new in subs:
        p=os.path.join(root,rel); old=open(p).read(); s=re.sub(pat,new,old)
        if s==old: raise BuildError("overlay pattern %r not found in %s"%(pat,rel))
        st=os.stat(p); open(p,"w").write(s); os.utime(p,(st.st_atime,st.st_mtime))
    return root
def repo_sources(root=None):
    src=[]
    for d,ds,fs in os.walk(os.path.join(root or REPO,"src")):
        ds[:]=sorted(x for x in ds if x not in("build","CMakeFiles") and not x.startswith("."))
        for f in sorted(fs):
            if f.endswith(".cpp") and not f.endswith("_test.cpp") and f not in("main.cpp","test.cpp"):
                src.append(os.path.join(d,f))
    return src
def _c(name): return os.path.join(VERIF,"harness",name)
class BuildError(Exception): pass
def build(targets):
    """as _build; a target marked optional that cannot be built is left out"""
    if not targets: return {}
    try:
        return _build(targets)
    except BuildError:
        need=[t for t in targets if not t.get("optional")]
        if len(need)==len(targets): raise
        outs=_build(need) if need else {}
        for t in targets:
            if t.get("optional"):
                try: outs.update(_build([t]))
                except BuildError: pass
        return outs
def _build(targets):
    """targets: list of dict(name, harness=[files], defs=[..], opt='-O2', guard=True, repo=True|False|[suffixes], cxx extra flags).
    Returns {name: path}. Distinct (defs,opt,guard) share repo objects."""
    inc,npinc,ldv=_pyflags()
    os.makedirs(BUILD,exist_ok=True)
    lines=["ninja_required_version = 1.3","rule cxx","  command = /usr/bin/g++ -MMD -MF $out.d $flags -c $in -o $out","  depfile = $out.d","  deps = gcc","rule link","  command = /usr/bin/g++ $in -o $out $lflags",""]
    seen=set(); outs={}
    for t in targets:
        root=_overlay(t["name"],t["overlay"]) if t.get("overlay") else REPO
        srcs=repo_sources(root)
        defs=list(t.get("defs",[]))
        if t.get("guard",True): defs=["-DFEYNMAN_VERIF"]+defs
        opt=t.get("opt","-O2"); extra=t.get("extra",[])
        base=["-std=c++11","-w","-ffunction-sections","-fdata-sections","-I"+root+"/src","-I"+inc,"-I"+npinc,"-include",VERIF+"/shim/py2compat.h"]
        rflags=" ".join([opt]+extra+base+defs)
        key=hashlib.sha1(rflags.encode()).hexdigest()[:10]
        objs=[]
        want=t.get("repo",True)
        for s in srcs:
            if want is False: break
            if want is not True and not any(s.endswith(x) or '/src/'+x in s for x in want): continue
            o=os.path.join(BUILD,key,os.path.relpath(s,root).replace("/","__")+".o")
            if o not in seen:
                seen.add(o); lines+=["build %s: cxx %s"%(o,s),"  flags = "+rflags]
            objs.append(o)
        hflags=" ".join([opt]+extra+["-std=c++17"]+base[1:]+["-I"+VERIF+"/harness"]+defs+t.get("hdefs",[]))
        hkey=hashlib.sha1(hflags.encode()).hexdigest()[:10]
        for h in t["harness"]:
            o=os.path.join(BUILD,"h"+hkey,h+".o")
            if o not in seen:
                seen.add(o); lines+=["build %s: cxx %s"%(o,_c(h)),"  flags = "+hflags]
            objs.append(o)
        exe=os.path.join(BUILD,"bin",t["name"])
        lf=" ".join(extra+["-Wl,--gc-sections","-lpython"+ldv,"-lpthread","-lm"]+t.get("lflags",[]))
        lines+=["build %s: link %s"%(exe," ".join(objs)),"  lflags = "+lf]
        outs[t["name"]]=exe
    tag=hashlib.sha1(("\n".join(lines)).encode()).hexdigest()[:8]
    nf=os.path.join(BUILD,"build-%s.ninja"%tag)
    open(nf,"w").write("builddir = %s\n"%os.path.join(BUILD,"nj-"+tag)+"\n".join(lines)+"\n")
    r=subprocess.run(["ninja","--quiet","-f",nf]+[outs[t["name"]] for t in targets],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: raise BuildError(r.stdout[-8000:])
    return outs
