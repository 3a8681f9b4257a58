# Sourced by check.sh and replay.sh. Needs verif, repo, scratch.

# The tree is read, never written: no VCS stamping, nothing fetched.
export HOME=${HOME:-/root}
export PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
export LC_ALL=C
unset GOOS GOARCH GODEBUG GOGC GOMAXPROCS

# build_monitor PROPERTY: makes $scratch/monitor. Status 3: the tree itself
# breaks the property, and $scratch/what says how.
build_monitor() {
    local h=$scratch/harness
    cp -r "$verif/harness" "$h" || return 1
    sed -i "s#=> /repo#=> $repo#" "$h/go.mod"
    case $1 in
    C10) build_yield "$h" || in_dir "$h" go build -race -buildvcs=false -o "$scratch/monitor" . ;;
    C17) build_cov "$h" ;;
    C18) build_tools && in_dir "$h" go build -buildvcs=false -o "$scratch/monitor" . ;;
    C19) build_regen "$h" ;;
    C23)
        # without C code every system call has a Go trace
        in_dir "$h" env CGO_ENABLED=0 go build -buildvcs=false -o "$scratch/monitor" . &&
            in_dir "$h" env CGO_ENABLED=0 go build -tags faketime -buildvcs=false -o "$scratch/monitor-fake" . || return 1
        # these are used if they can be made
        in_dir "$h" env CGO_ENABLED=0 GOARCH=386 go build -buildvcs=false -o "$scratch/monitor-386" . 2> /dev/null
        command -v go1.23 > /dev/null &&
            in_dir "$h" env CGO_ENABLED=0 go1.23 build -gcflags='all=-N -l' -buildvcs=false -o "$scratch/monitor-old" . 2> /dev/null
        true
        ;;
    *) in_dir "$h" go build -buildvcs=false -o "$scratch/monitor" . ;;
    esac
}

in_dir() { (cd "$1" && shift && "$@"); }

# instrument MODE NAME: the library's files are replaced, for this build only,
# by copies instrumented with go tool cover: its counters are kept (NAME cov) or
# become calls (NAME yield) of a package added to the module. Makes $scratch/NAME/overlay.json. Judged are all packages of the
# module but commands, whatever files they are made of.
instrument() {
    local mode=$1 name=$2 y=$scratch/$2 k=0 f dir pkg files path sep=
    mkdir -p "$y" || return 1
    (cd "$repo" && go list -e -mod=readonly -f '{{.Dir}}|{{.Name}}|{{.ImportPath}}|{{range .GoFiles}}{{.}} {{end}}' ./...) > "$y/packages" || return 1
    printf '{"Replace": {' > "$y/overlay.json"
    while IFS='|' read -r dir pkg path files; do
        [ "$pkg" = main ] || [ -z "$files" ] && continue
        : > "$y/counters"
        for f in $files; do
            k=$((k + 1))
            go tool cover -mode="$mode" -var="VerifVar$k" -o "$y/f$k.go" "$dir/$f" || return 1
            grep -q "VerifVar$k\\.Count\\[" "$y/f$k.go" || continue
            if [ "$name" = yield ]; then
                sed -i "s/VerifVar$k\\.Count\\[[0-9]*\\] = 1;/verifYield();/g" "$y/f$k.go"
            else
                echo "	verifcov.Add(\"${path#github.com/leodido/go-urn}/$f\", VerifVar$k.Count[:], VerifVar$k.NumStmt[:], VerifVar$k.Pos[:])" >> "$y/counters"
            fi
            printf '%s"%s": "%s"' "$sep" "$dir/$f" "$y/f$k.go" >> "$y/overlay.json"
            sep=', '
        done
        {
            echo "package $pkg"
            echo "import \"github.com/leodido/go-urn/verif$name\""
            if [ "$name" = yield ]; then
                echo 'func verifYield() { verifyield.Yield() }'
            else
                echo 'func init() {'; cat "$y/counters"; echo '}; var _ = verifcov.Add'
            fi
        } > "$y/p$k.go"
        printf '%s"%s": "%s"' "$sep" "$dir/verif_$name.go" "$y/p$k.go" >> "$y/overlay.json"
        sep=', '
    done < "$y/packages"
    cp "$verif/harness/support/$name.go.in" "$y/$name.go" || return 1
    printf '%s"%s": "%s"}}' "$sep" "$repo/verif$name/$name.go" "$y/$name.go" >> "$y/overlay.json"
}

# build_cov HARNESS: counts the statements executed in the library.
build_cov() {
    instrument count cov &&
        in_dir "$1" go build -tags cov -overlay "$scratch/cov/overlay.json" -buildvcs=false -o "$scratch/monitor" .
}

# build_yield HARNESS: with the race detector; the library may give way to
# other goroutines at every branch.
build_yield() {
    instrument set yield &&
        in_dir "$1" go build -race -tags yield -overlay "$scratch/yield/overlay.json" -buildvcs=false -o "$scratch/monitor" . 2> "$scratch/yield.log"
}

build_tools() {
    mkdir -p "$scratch/tools" || return 1
    local t
    for t in removecomments snake2camel; do
        in_dir "$repo/tools/$t" go build -buildvcs=false -o "$scratch/tools/$t" . || return 1
    done
}

# build_regen HARNESS: regenerates the parser in a copy of the tree, by its own
# recipe and tools, and builds it as another package next to the tree's.
build_regen() {
    local h=$1 src=$scratch/src re=$scratch/regen f
    command -v ragel > /dev/null || { echo "no ragel" >&2; return 1; }
    command -v make > /dev/null || { echo "no make" >&2; return 1; }
    mkdir -p "$src" "$re" || return 1
    (cd "$repo" && tar cf - --exclude=.git .) | tar xf - -C "$src" || return 1
    rm -f "${src:?}/machine.go"
    if ! in_dir "$src" make machine.go > "$scratch/make.log" 2>&1 || [ ! -s "$src/machine.go" ]; then
        { echo "the recipe fails to generate the parser from its grammar:"; tail -c 3000 "$scratch/make.log"; } > "$scratch/what"
        build_plain "$h" || return 1
        return 3
    fi
    printf 'module regen.local/urn\n\ngo 1.18\n' > "$re/go.mod"
    for f in "$src"/*.go; do
        case $f in *_test.go) ;; *) cp "$f" "$re/" ;; esac
    done
    printf '\nrequire regen.local/urn v0.0.0\nreplace regen.local/urn => %s\n' "$re" >> "$h/go.mod"
    in_dir "$h" go build -tags regen -buildvcs=false -o "$scratch/monitor" . 2> "$scratch/build.log" && return 0
    # A helper of the generated file may have moved to another file of the
    # tree, or the other way round: the generated code does not depend on it
    # if it does with the other files as they were.
    for f in "$re"/*.go; do
        case $f in */machine.go) ;; *) rm -f "$f" ;; esac
    done
    for f in "$verif"/harness/support/*.txt; do
        cp "$f" "$re/$(basename "$f" .txt)"
    done
    in_dir "$h" go build -tags regen -buildvcs=false -o "$scratch/monitor" . 2> "$scratch/build2.log" && return 0
    build_plain "$h" || { cat "$scratch/build.log" >&2; return 1; }
    { echo "the parser generated from the grammar does not compile:"; head -c 3000 "$scratch/build.log"; } > "$scratch/what"
    return 3
}

build_plain() {
    cp "$verif/harness/go.mod" "$1/go.mod"
    sed -i "s#=> /repo#=> $repo#" "$1/go.mod"
    in_dir "$1" go build -buildvcs=false -o "$scratch/monitor" .
}
