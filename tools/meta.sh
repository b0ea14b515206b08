meta () 
{ 
    python3 - "$@" <<'P'
import json,sys
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
P

}
mk () 
{ 
    mkdir -p /verif/seeded/$1;
    cp /verif/tools/demo_template.sh /verif/seeded/$1/demo.sh;
    cat > /verif/seeded/$1/demo.cpp
}
