import subprocess
props="C05 C03 C03 C12 C12 C12 C13 C06 C11 C13 C07 C30 C30 C15 C15 C16 C08 C08 C08 C08 C29 C07 C07 C10 C10 C24 C24 C24 C24 C30 C06 C11 C09 C08 C11 C29 C07 C29 C05 C29 C09 C06 C10 C10 C11 C10 C05 C03 C03 C24 C24 C24 C25 C25 C24 C24 C17 C18 C18 C18 C19 C19 C21 C21 C21 C21 C20 C20 C20 C20 C20 C22 C22 C22 C23 C23 C27 C27 C25 C25 C25 C25 C25 C25 C26 C11 C25 C25 C25 C26 C26 C26 C26 C26 C26 C09 C25 C10 C30 C08 C08 C08 C32 C32 C32 C32 C24 C24 C24 C28 C28 C07 C10 C10 C03 C22 C27 C33 C33".split()
fx=[l for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines() if ' fix: ' in l]
assert len(fx)==len(props),(len(fx),len(props))
old=[l for l in open('/verif/known_findings.txt').read().splitlines() if not l.startswith('fixed:')]
old=[l for l in old if 'compressed-typed' not in l]+["known: property=C28 id=compressed-typed the encapsulated content of a CompressedData whose content type has a declared spec (for example signed_data) is parsed as that type although it holds compressed octets, so reading its native value raises ValueError"]
with open('/verif/known_findings.txt','w') as f:
    f.write('\n'.join(old)+'\n')
    for p,l in zip(props,fx):
        h,m=l.split(' ',1)
        f.write('fixed: property=%s %s %s\n'%(p,h,m[5:]))
