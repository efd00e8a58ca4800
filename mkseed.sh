#!/bin/bash
# mkseed.sh ID: demo scaffold (stub library copies + demo.sh) in seeded/ID; then check it
# usage: mkseed.sh ID            copy scaffold
#        mkseed.sh ID check      verify the seed in a scratch copy of /repo
set -e
cd "$(dirname "$0")"; d=$PWD/seeded/$1
if [ "$2" != check ]; then
mkdir -p $d/lib/auto; cp lib/vf.h lib/ngx_stubs.h $d/lib/; cp lib/auto/* $d/lib/auto/
cat > $d/demo.sh <<'S'
#!/bin/bash
# builds demo.c with the real source of the repository in the current directory
D=$(cd "$(dirname "$0")" && pwd); R=$PWD/modules; N=/usr/share/nginx/src/src
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
I="-I $D/lib -I $D/lib/auto"
for x in core event event/modules os/unix http http/modules http/v2 stream; do I="$I -I $N/$x"; done
for x in nginx-rtmp-module nginx-rtmp-module/http nginx-rtmp-module/hls nginx-rtmp-module/mpegts nginx-rtmp-module/dash nginx-rtmp-module/json nginx-client-module nginx-multiport-module nginx-toolkit-module nginx-ts-module/src; do I="$I -I $R/$x"; done
gcc -g -O1 -w -DVF_NATIVE -D_GNU_SOURCE -D_FILE_OFFSET_BITS=64 -ffunction-sections -fno-strict-aliasing -fsanitize=address,bounds -fno-sanitize-recover=all $(cat "$D/flags" 2>/dev/null) $I "$D/demo.c" -o "$W/demo" -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all -lm -lcrypto || exit 0
ASAN_OPTIONS=detect_leaks=0 timeout 20 "$W/demo"
S
chmod +x $d/demo.sh
exit 0
fi
t=/tmp/w/seed_$1; rm -rf "/tmp/w/seed_$1"; cp -a /repo $t; cd $t
bash $d/demo.sh > /tmp/w/seed.log 2>&1 && echo "unpatched ok" || { echo "UNPATCHED FAILS"; head -c 1500 /tmp/w/seed.log; }
git apply $d/patch.diff
bash $d/demo.sh > /tmp/w/seed.log 2>&1 && echo "PATCHED PASSES" || { echo "patched fails (good)"; head -c 400 /tmp/w/seed.log; }
cd /tmp; rm -rf "/tmp/w/seed_$1"
