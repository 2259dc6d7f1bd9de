#!/bin/bash
# seedtest.sh ID...: confirms planted bugs in a scratch copy of /repo (builds, keeps the
# stable tests passing, demo passes without and fails with the patch).
for id in "$@"; do
  d=/verif/seeded/$id
  s=/tmp/s/repo
  [ -d $s ] || cp -a /repo $s
  # the demo runs in /repo by contract; here it is run in the copy
  cd $s && git checkout -q -- . && git -C $s reset -q --hard $(git -C /repo rev-parse HEAD) 2>/dev/null || { git -C $s fetch -q /repo HEAD && git -C $s reset -q --hard FETCH_HEAD; }
  timeout 300 bash $d/demo.sh >/tmp/s/$id.clean 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  timeout 300 bash $d/demo.sh >/tmp/s/$id.bug 2>&1; b=$?
  echo "$id: demo clean=$a patched=$b"
  if [ "$T" != 0 ]; then
    # same as /opt/vp/build.sh and test.sh, in place: needs /repo itself
    cd /repo && git apply $d/patch.diff && bash /opt/vp/test.sh /tmp/s/$id.json >/tmp/s/$id.test 2>&1
    tail -2 /tmp/s/$id.test | head -1
    git -C /repo checkout -q -- .
  fi
  git -C $s checkout -q -- .
done
