# How the checker of each property is built. Sourced by check.sh.
mode() {
	case $1 in
	C18) echo iter ;;
	C28) echo sched ;;
	C29 | C30 | C31 | C36) echo xt ;;
	C32) echo xtiter ;;
	C33 | C35 | C40) echo xtbin ;;
	*) echo lib ;;
	esac
}

# the library as it is
build_lib() { build go build -o "$scratch/vmc" ./cmd/vmc; }

# the library as it is, with a runtime whose map iterations start where the checker says and
# whose wall clock shows what the checker says
build_iter() {
	iter_overlay || { build_lib; return; }
	local tags=veriter; clock_overlay && tags=veriter,verclock
	build go build -tags $tags -overlay "$scratch/overlay.json" -o "$scratch/vmc" ./cmd/vmc
}
iter_overlay() {
	local maps; maps=$(go env GOROOT)/src/internal/runtime/maps
	awk '/^\tit\.entryOffset = rand\(\)$/ {print "\tit.entryOffset, it.dirOffset = verifIter()"; n++; next}
	     /^\tit\.dirOffset = rand\(\)$/ {n++; next} {print} END {exit n!=2}' "$maps/table.go" > "$scratch/table.go" || return 1
	sed 's/^\(\t*m\.seed = uintptr(\)rand())$/\1verifSeed())/' "$maps/map.go" > "$scratch/map.go"
	sed 's/^\(\t*\(hashkey\|key\)\[i\] = .*\)bootstrapRand()/\1verifKey(i)/' "$maps/runtime_alg.go" > "$scratch/runtime_alg.go"
	cp "$here/harness/overlay/maps_verif.go.txt" "$scratch/maps_verif.go"
	printf '{"Replace":{"%s/zz_verif.go":"%s/maps_verif.go"' "$maps" "$scratch" > "$scratch/overlay.json"
	local f; for f in table map runtime_alg; do printf ',"%s/%s.go":"%s/%s.go"' "$maps" $f "$scratch" $f; done >> "$scratch/overlay.json"
	echo '}}' >> "$scratch/overlay.json"
}
clock_overlay() { # adds to the overlay; the monotonic clock stays as it is
	local time; time=$(go env GOROOT)/src/time
	awk '{print} /^func Now\(\) Time {$/ {f=1} /^}/ {f=0} f && /^\tsec, nsec, mono := runtimeNow\(\)$/ {print "\tsec += verifShift"; n++} END {exit n!=1}' "$time/time.go" > "$scratch/time.go" || return 1
	cp "$here/harness/overlay/time_verif.go.txt" "$scratch/time_verif.go"
	sed -i 's|}}$|,"'"$time/time.go"'":"'"$scratch/time.go"'","'"$time/zz_verif.go"'":"'"$scratch/time_verif.go"'"}}|' "$scratch/overlay.json"
}

env_overlay() { # adds to the overlay
	local os; os=$(go env GOROOT)/src/os
	awk '{print} /^func Getenv\(key string\) string {$/ {print "\tif v, ok, known := verifEnv(key); known {\n\t\t_ = ok\n\t\treturn v\n\t}"; n++}
	     /^func LookupEnv\(key string\) \(string, bool\) {$/ {print "\tif v, ok, known := verifEnv(key); known {\n\t\treturn v, ok\n\t}"; n++} END {exit n!=2}' "$os/env.go" > "$scratch/env.go" || return 1
	awk '{print} /^func Hostname\(\) \(name string, err error\) {$/ {print "\tif v, ok, known := verifEnv(\"the name of the host\"); known && ok {\n\t\treturn v, nil\n\t}"; n++} END {exit n!=1}' "$os/sys.go" > "$scratch/sys.go" || return 1
	cp "$here/harness/overlay/os_verif.go.txt" "$scratch/os_verif.go"
	sed -i 's|}}$|,"'"$os/env.go"'":"'"$scratch/env.go"'","'"$os/sys.go"'":"'"$scratch/sys.go"'","'"$os/zz_verif.go"'":"'"$scratch/os_verif.go"'"}}|' "$scratch/overlay.json"
}

# the library with a scheduling point before every statement, package sync replaced and the
# race detector watching
build_sched() {
	iter_overlay && tags=veriter || { tags=; rm -f "$scratch/overlay.json"; }
	cp "$scratch/overlay.json" "$scratch/iter.json" 2>/dev/null || echo '{"Replace":{}}' > "$scratch/iter.json"
	mkdir -p "$scratch/instr"
	cp "$scratch/iter.json" "$scratch/overlay.json"
	if go run ./cmd/instr "$scratch/instr" "$scratch/overlay.json" "$repo" &&
		go build -race -gcflags=all=-d=checkptr=0 -tags "$tags" -overlay "$scratch/overlay.json" -o "$scratch/vmc" ./cmd/vmc; then
		return
	fi
	# code the instrumentation cannot handle: whole operations are the scheduling unit
	build go build -race -gcflags=all=-d=checkptr=0 -tags "$tags" -overlay "$scratch/iter.json" -o "$scratch/vmc" ./cmd/vmc
}

# xtemplate: the checker lives, virtually, below cmd/xtemplate to import its internal package
build_xt() {
	cp "$here/harness/overlay/xtmain.go.txt" "$scratch/xtmain.go"
	printf '{"Replace":{"%s/cmd/xtemplate/zzverif/main.go":"%s/xtmain.go"%s}}\n' "$repo" "$scratch" "${2:-}" > "$scratch/overlay.json"
	build go build ${1:+-tags $1} -overlay "$scratch/overlay.json" -o "$scratch/vmc" github.com/youthlin/t/cmd/xtemplate/zzverif
}
build_xtiter() {
	build go build -o "$scratch/xtemplate" github.com/youthlin/t/cmd/xtemplate
	export VERIF_XTEMPLATE=$scratch/xtemplate
	iter_overlay || { build_xt; return; }
	local tags=veriter; clock_overlay && tags=veriter,verclock
	env_overlay && tags=$tags,verenv
	build_xt $tags "$(sed 's/^{"Replace":{/,/; s/}}$//' "$scratch/overlay.json")"
}
build_xtbin() {
	build go build -o "$scratch/xtemplate" github.com/youthlin/t/cmd/xtemplate
	export VERIF_XTEMPLATE=$scratch/xtemplate VERIF_XTLANG=$repo/cmd/xtemplate/lang
	build_xt
}
