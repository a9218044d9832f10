#!/bin/bash
# iso.sh CMD...: run CMD with private copies of /repo and /verif in their places
# (developer helper: lets experiments change the code under test while /repo stays as it is)
d=$(mktemp -d /tmp/iso.XXXXXX)
cp -a /repo $d/repo; cp -a /verif $d/verif
unshare -m bash -c 'mount --bind "$0/repo" /repo && mount --bind "$0/verif" /verif && cd /verif && "$@"' $d "$@"; rc=$?
rm -rf "$d"
exit $rc
