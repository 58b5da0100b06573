mks () 
{ 
    D=/verif/seeded/$1;
    mkdir -p $D;
    git -C /repo diff > $D/patch.diff;
    cp /tmp/demo.cpp $D/;
    cp /verif/tools/seed/demo.sh $D/;
    python3 -c "import json,sys;print(json.dumps({'property':sys.argv[1],'needs':sys.argv[2],'what_it_breaks':sys.argv[3]},indent=1))" "$2" "$3" "$4" > $D/meta.json;
    git -C /repo checkout -- .;
    wc -l $D/patch.diff
}
