mk () 
{ 
    mkdir -p seeded/$1;
    cp demo/{peers.h,base64.cpp,compile.sh} seeded/$1/;
    printf '#!/bin/bash\n%s. "$(dirname "$0")/compile.sh"\n' "$5" > seeded/$1/demo.sh;
    python3 -c "import json,sys;json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open('seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)" "$1" "$2" "$3" "$4"
}
