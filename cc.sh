#!/bin/sh
# type-check a harness with gcc: cc.sh h/x.c [defs]
N=/usr/share/nginx/src/src; R=${VF_REPO:-/repo}/modules
exec gcc -fsyntax-only -w -DVF_NATIVE -D_GNU_SOURCE -I lib -I lib/auto $(for d in core event event/modules os/unix http http/modules http/v2 stream; do echo -I$N/$d; done) $(for d in nginx-rtmp-module nginx-rtmp-module/http nginx-rtmp-module/hls nginx-rtmp-module/mpegts nginx-rtmp-module/dash nginx-rtmp-module/json nginx-client-module nginx-multiport-module nginx-toolkit-module nginx-ts-module/src; do echo -I$R/$d; done) "$@"
