import sys; sys.path.insert(0,'/verif/engine')
import build, llvmc
d=build.scratch(); al,bad=build.module(d)
for f,o in bad: print('BAD',f,o[:1500])
m=llvmc.Module(al)
for x,n in sorted((llvmc.demangle(n),n) for n in m.fptr): print('D' if m.is_decl(n) else ' ',x)
