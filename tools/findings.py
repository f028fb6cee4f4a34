import json,os,subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP={'unbalanced the tree of its siblings':'P04','widths and heights of dnx':'P20','importing audio':'P20','inherited property could not be resolved':'P14','add_keyframe compared':'P19','not exact at keyframes':'P19','mxf':'P21','weak reference type definition':'P16','type referring to itself':'P16','added to the base class':'P16','path of a weak reference':'P16','vectors and sets into another file':'P16','copies of vectors within':'P16','copies of empty':'P16','types of indirect':'P16','enum values of element types':'P16','unattached object that holds a stream':'P13','below the dynamic range':'P15','given to register_propertydef':'P15','reassigning conflicting':'P15','replaced definitions':'P16','forbidden characters':'P15','create.<Class>(name':'P23','wrong class':'P23','DirEntry.modify_time':'P05','terminate the DIFAT':'P03','own descendant':'P04','create_timeline_slot':'P17','NestedScope':'P18',
'keyframe earlier':'P19','index_at_time':'P18','fixed arrays':'P11','floats beyond':'P10','dependant_mobs':'P22','wrong key pid':'P14',
'weak reference to a class':'P16','set type definition':'P16','lost their names':'P16','known class id':'P16','Dictionary.update':'P16',
'enum elements':'P16','StrongRefVectorProperty.insert':'P13','extend() of':'P13','lost their parent':'P04','second Property instance':'P12','text arrays could':'P11','extensible enum types':'P11'}
out=[]
log=subprocess.run(['git','-C','/repo','log','--format=%h %s','--reverse'],capture_output=True,text=True).stdout
for l in log.splitlines():
    h,_,s=l.partition(' ')
    if not s.startswith('fix:'): continue
    p=[v for k,v in PROP.items() if k in s]
    if not p: raise SystemExit('no property for '+s)
    out.append(dict(property=p[0],id='fixed-'+h,status='fixed',line='fixed: property=%s %s %s'%(p[0],h,s[5:]),what=s[5:]))
out+=json.load(open(V+'/tools/known.json'))
json.dump(dict(findings=out),open(V+'/known_findings.json','w'),indent=1)
print(len(out))
