import json,subprocess
log=subprocess.run("git -C /repo log --format='%h %s'",shell=True,capture_output=True,text=True).stdout.splitlines()
m={
"an entry that cannot replace":("C19","extracting a file over a directory, or a link over a file that could not be removed, was skipped silently and success reported"),
"forcing the extraction":("C13","-f on an entry of an unknown file type created the file type instead of extracting data"),
"a directory entry does not change":("C13","a directory entry named like an existing link changed the mode and time of the link's target"),
"a file or directory that cannot be accessed":("C18","adding a file that exists but cannot be opened or read reported success"),
"a damaged match does not extend":("C08","a match reaching past the original size made the decoder hand out more bytes than stated"),
"updating an archive keeps":("C12","adding to an existing archive dropped or duplicated the other entries and truncated the archive on errors (also C18)"),
"rewrite the header of the entry":("C02","the header of the added entry was rewritten at the wrong offset; incompressible data was stored as the discarded packed bytes (also C03)"),
"extract below the extraction":("C13","names with .., absolute names and existing links led outside the extraction directory"),
"overwrite questions":("C14","the answer to the overwrite question was ignored"),
"extracting an entry which is not":("C11","extracting an absent entry reported success"),
"step over the entries":("C11","after an entry the next header was looked for at the wrong place, and damaged entries ended the listing silently (also C06, C17)"),
"extraction reports CRC":("C08","CRC, read, write and create errors were dropped (also C19), and verifying printed the contents (C17)"),
"MS-DOS time stamps":("C20","MS-DOS time stamps were written with the wrong epoch and not converted back (also C04, C05)"),
"store the file type":("C20","the file type constants were decimal instead of octal; directories lost their slash"),
"write level 1 and 2 headers":("C04","level 1 and 2 headers and link names written could not be read back"),
"parse extended headers":("C05","extended headers, names and header CRCs were parsed wrongly (also C06, C09)"),
"report encoding errors":("C18","encoding errors were dropped"),
"write the low bits":("C01","-lh1- codes longer than 16 bits were written from the wrong bits"),
"stop decoding malformed":("C10","malformed streams made the decoders loop for ever or panic"),
"a 64 KiB -lh7-":("C01","the 16 bit window position never reached 65536, so -lh7- was never flushed"),
"copyfile copies exactly":("C02","copyfile copied the wrong number of bytes and no CRC"),
"walk the -pm2-":("C15","-pm2- tree walk restarted at the root; the last part of the -lz5- window was not initialised"),
"-lh3- position":("C15","-lh3- data was not decoded"),
"extra length bits":("C15","-lh2- extra length bits were read for -lh1- (also C01)"),
"set up the -lh4-":("C15","-lh4- data was not decoded"),
"encode -lh1-":("C01","-lh1- was encoded as -lh5- data"),
"size the shared text":("C01","the shared window was too small for -lh7-"),
"mask the whole initial":("C01","the initial hash ran outside the hash table"),
}
out=[]
for l in reversed(log):
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    t=s[5:]
    k=[x for x in m if t.startswith(x)]
    assert len(k)==1,(s,k)
    p,w=m[k[0]]
    out.append(dict(property=p,status="fixed",commit=h,what="fixed: property=%s %s %s"%(p,h,w)))
json.dump(out,open('/verif/known_findings.json','w'),indent=1)
print(len(out))
