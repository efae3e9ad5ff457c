#!/bin/bash
# run.sh PROPERTY [REPO]: search for an input on which the real code breaks the property.
# Exit 1 with a line "REPRODUCED property=..." if one is found, 0 if none is.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/../env.sh"
prop="$1"; repo="${2:-/repo}"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
case "$prop" in
C01|C02|C03|C04|C05|C06|C07|C08|C09|C10|C11|C12|C13|C14) pkg=./libcomfo; file=libcomfo_replay_test.go; dst="$repo/libcomfo/zz_replay_verif_test.go";;
C15|C16|C17|C18|C19|C20|C21|C22|C23) pkg=./comfoserver; file=comfoserver_replay_test.go; dst="$repo/comfoserver/zz_replay_verif_test.go";;
C24|C25|C26|C30) pkg=.; file=main_replay_test.go; dst="$repo/zz_replay_verif_test.go";;
C27) exec python3 "$here/client_replay.py" "$repo";;
*) exit 0;;
esac
[ -f "$here/$file" ] || exit 0
more=""
if [ "$prop" = C23 ]; then
	# minutes and hours pass faster: 5 minutes in 10 seconds, an hour in 15
	src="$(go env GOROOT)/src/time"
	sed 's/^func when(d Duration) int64 {$/&\n\td = scaled(d)/' "$src/sleep.go" > "$tmp/sleep.go"
	cat >> "$tmp/sleep.go" <<'END'

func scaled(d Duration) Duration {
	if d >= 30*Minute {
		return d / 240
	}
	if d >= Minute {
		return d / 30
	}
	return d
}
END
	sed 's/int64(d)/int64(scaled(d))/' "$src/tick.go" > "$tmp/tick.go"
	if grep -q '= scaled(d)' "$tmp/sleep.go" && [ "$(grep -c 'scaled(d)' "$tmp/tick.go")" = 2 ]; then
		more=", \"$src/sleep.go\": \"$tmp/sleep.go\", \"$src/tick.go\": \"$tmp/tick.go\""
		export VERIF_SCALED=1
	fi
fi
echo "{\"Replace\": {\"$dst\": \"$here/$file\"$more}}" > "$tmp/overlay.json"
cd "$repo" || exit 2
timeout 240 go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 0 -run "^Test$prop\$" "$pkg" > "$tmp/out" 2>&1
rc=$?
head -c 60000 "$tmp/out"
if grep -q "REPRODUCED property=$prop " "$tmp/out"; then exit 1; fi
if [ "$prop" = C14 ] && grep -q "^panic:\|^fatal error:" "$tmp/out"; then
	echo "REPRODUCED property=C14 $(grep -m1 '^panic:\|^fatal error:' "$tmp/out")"; exit 1
fi
exit 0
