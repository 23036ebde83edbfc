import sys,os,tempfile
sys.path.insert(0,'/verif/vc'); import driver,props
pid,src=sys.argv[1:3]
u=[u for u in props.PROPS[pid]['units'] if u['src']==src][0]
d='/tmp/nat_'+pid; os.system('rm -rf '+d); os.makedirs(d)
if u.get('bison'): driver.gen_grammar(d); u=dict(u,cflags=u.get('cflags',[])+['-iquote',d+'/gen'])
lib=driver.build_lib(d) if u.get('lib') else ()
print(driver.compile_native(u,d,lib))
