#!/usr/bin/env python3
"""newseed.py ID PROPERTY 'needs' 'breaks' main.rs : stores /repo's working-tree diff as seeded/ID (and reverts it)."""
import sys,os,subprocess,json,shutil
i,p,needs,br,main=sys.argv[1:6]
d=f"/verif/seeded/{i}"; os.makedirs(d+"/src",exist_ok=True)
diff=subprocess.run(["git","-C","/repo","diff"],capture_output=True,text=True).stdout
assert diff.strip()
open(d+"/patch.diff","w").write(diff)
subprocess.run(["git","-C","/repo","checkout","--","."],check=True)
json.dump({"property":p,"needs":needs,"what_it_breaks":br},open(d+"/meta.json","w"),indent=1)
shutil.copy("/root/demo/Cargo.toml",d); shutil.copy("/root/demo/Cargo.lock",d); shutil.copy(main,d+"/src/main.rs")
open(d+"/demo.sh","w").write('''#!/bin/bash
# exit 0: the property holds; builds and runs the program beside it against /repo, in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
s=$(mktemp -d)
cp -r "$here/Cargo.toml" "$here/Cargo.lock" "$here/src" "$s/"
cd "$s" && CARGO_TARGET_DIR="$s/target" timeout 280 cargo run -q --offline
rc=$?
rm -rf "$s"
exit $rc
''')
os.chmod(d+"/demo.sh",0o755)
