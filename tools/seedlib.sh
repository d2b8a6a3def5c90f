mk () 
{ 
    id=$1;
    mkdir -p seeded/$id;
    cat > seeded/$id/main.rs
}
meta () 
{ 
    python3 - "$@" <<'P'
import json,sys
i,p,n,w=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(f'/verif/seeded/{i}/meta.json','w'),indent=1)
P

}
