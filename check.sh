#!/bin/bash
# check.sh ID quick|thorough: build the harness against /repo's working tree, run one check.
# exit 0: the property held on everything explored; 1: VIOLATION; 2: no verdict.
ID=${1:?usage: check.sh ID quick|thorough}
TIER=${2:-quick}
HERE=$(cd "$(dirname "$0")" && pwd)
EV=${VERIF_EVIDENCE:-$HERE/evidence/$ID.json}
export VERIF_KNOWN=$HERE/known-findings.txt
export VERIF_REPLAY_DIR=${VERIF_REPLAY_DIR:-$HERE/evidence/replay}
mkdir -p "$(dirname "$EV")" "$VERIF_REPLAY_DIR" "$HERE/.build"
rm -f "$EV" "$VERIF_REPLAY_DIR/$ID"-*
. /opt/vp/env.sh
unset CARGO_BUILD_TARGET RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
# a fresh build directory for every run: nothing built earlier can be mistaken for the current tree
if [ -n "$VERIF_TARGET" ]; then
    T=$VERIF_TARGET
else
    T=$(mktemp -d "$HERE/.build/$ID.XXXXXX")
    trap 'rm -rf "$T"' EXIT
fi
mkdir -p "$T"
cd "$HERE/harness/bb" || exit 2

# build NAME FEATURES [hooks]: binary in $T/NAME/release/bb
build() {
    local name=$1 feats=$2
    if [ -n "$3" ]; then
        if RUSTFLAGS="--cfg pgcst_verif" CARGO_TARGET_DIR=$T/$name cargo build --release --offline --no-default-features \
            --features "$feats,hooks" > "$T/$name.log" 2>&1; then
            touch "$T/$name.hooks"
            return 0
        fi
        echo "note: the hooks do not build on this tree; continuing with the public API only"
    fi
    CARGO_TARGET_DIR=$T/$name cargo build --release --offline --no-default-features --features "$feats" > "$T/$name.log" 2>&1 && return 0
    grep -E "^error" -A9 "$T/$name.log" | head -60
    echo "the harness does not build ($name)"
    exit 2
}

# run BIN EVIDENCE
run() {
    local lim=24000000
    case $ID in
    C02 | C21) lim=unlimited ;; # threads with large stacks; other processes
    C19 | C20 | C22) lim=12000000 ;;
    esac
    (ulimit -v $lim && exec "$1" "$ID" "$TIER" "$2") > "$T/out" 2> "$T/err" < /dev/null
    local rc=$?
    cat "$T/out"
    if [ $rc -ge 2 ]; then
        tail -c 2000 "$T/err"
        # the process was ended by a crash of the code under test (abort or stack overflow):
        # some input of the check has no outcome at all
        if [ $rc -eq 134 ] || [ $rc -eq 139 ] || [ $rc -eq 132 ] || [ $rc -eq 136 ]; then
            cp "$T/err" "$VERIF_REPLAY_DIR/$ID-crash.txt"
            echo "VIOLATION property=$ID replay=$VERIF_REPLAY_DIR/$ID-crash.txt"
            rc=1
        fi
    fi
    # ended before the evidence was written
    [ $rc -eq 1 ] && [ ! -e "$2" ] && python3 "$HERE/tools/evidence.py" "$2" "$ID" "$TIER" 1 crash
    return $rc
}

# report FILE WHAT: a violation that is not an input of the parser
report() {
    local f=$VERIF_REPLAY_DIR/$ID-$2.txt
    tail -c 20000 "$1" > "$f"
    grep -vE "^\[" "$1" | tail -n 15
    echo "VIOLATION property=$ID replay=$f"
    python3 "$HERE/tools/evidence.py" "$EV" "$ID" "$TIER" 1 "$2"
}

# regenerate: run both generators on a copy of the tree in $T/regen and set up a harness for it there
regenerate() {
    local r=$T/regen/repo g
    rm -rf "$T/regen"
    mkdir -p "$r"
    (cd /repo && tar cf - --exclude=./target --exclude=./.git .) | tar xf - -C "$r" || exit 2
    for g in lexer-generator parser-generator; do
        (cd "$r" && CARGO_TARGET_DIR=$T/generators cargo build -q --release --offline -p $g) > "$T/$g.log" 2>&1 || {
            grep -E "^error" -A9 "$T/$g.log" | head -40
            echo "$g does not build"
            exit 2
        }
        (cd "$r" && timeout 600 "$T/generators/release/$g") > "$T/$g.log" 2>&1
        local rc=$?
        if [ $rc -eq 124 ]; then
            echo "$g does not end"
            exit 2
        elif [ $rc -ne 0 ]; then
            echo "$g fails with status $rc"
            report "$T/$g.log" $g
            exit 1
        fi
    done
    cp -a "$HERE/harness" "$HERE/known-findings.txt" "$T/regen/" || exit 2
    sed -i "s#\"/repo/#\"$r/#" "$T/regen/harness/bb/Cargo.toml"
}

# peer NAME FEATURES: the harness on the regenerated parser
peer() {
    local flags= feats=$2
    [ -e "$T/default.hooks" ] && flags="--cfg pgcst_verif" feats=$2,hooks
    (cd "$T/regen/harness/bb" && RUSTFLAGS=$flags CARGO_TARGET_DIR=$T/$1 cargo build --release --offline --no-default-features \
        --features "$feats") > "$T/$1.log" 2>&1
}

# hand_written: the generator also copies hand-written sources of the scanner. Where its copies no longer
# fit the rest of the crate (a helper added to one of the two), take the tree's own.
hand_written() {
    local f d=crates/postgresql-cst-parser/src
    echo "note: the generator's copies of the hand-written sources do not fit the crate; keeping the crate's own"
    for f in lexer.rs lexer/util.rs lexer/lexer_ported.rs lexer/parser_error.rs; do
        [ -e "/repo/$d/$f" ] && cp "/repo/$d/$f" "$T/regen/repo/$d/$f"
    done
}

# gen BINARY FEATURES: the checks of the generators, in $T/gen/release/BINARY
gen() {
    (cd "$T/g/gen" && RUSTFLAGS="--cfg pgcst_verif" CARGO_TARGET_DIR=$T/gen cargo build --release --offline \
        --bin "$1" --features "$2") > "$T/gen.log" 2>&1
}

# what is left of C19 and C22 on a tree where the hooks of the generator do not build: the tables
# it makes for the whole grammar
whole_grammar() {
    echo "note: the hooks of the generator do not build on this tree; checking what it makes of gram.y only"
    regenerate
    regenerated() {
        (cd "$T/regen/harness/bb" && RUSTFLAGS="--cfg pgcst_verif" CARGO_TARGET_DIR=$T/default cargo build --release --offline \
            --features hooks) > "$T/default.log" 2>&1 ||
            (cd "$T/regen/harness/bb" && CARGO_TARGET_DIR=$T/default cargo build --release --offline) > "$T/default.log" 2>&1
    }
    regenerated || { hand_written && regenerated; } || {
        echo "the regenerated parser does not build"
        report "$T/default.log" build
        exit 1
    }
    run "$T/default/release/bb" "$EV"
    exit $?
}

case $ID in
C16)
    build default remove-empty & P1=$!
    build keep-empty "" & P2=$!
    wait $P1 && wait $P2 || exit 2
    run "$T/default/release/bb" "$T/a.json"; A=$?
    [ $A -ge 2 ] && exit 2
    run "$T/keep-empty/release/bb" "$T/b.json"; B=$?
    [ $B -ge 2 ] && exit 2
    python3 "$HERE/tools/merge_evidence.py" "$EV" "default=$T/a.json" "keep-empty=$T/b.json" || exit 2
    exit $((A || B))
    ;;
C17)
    build default remove-empty hooks & P1=$!
    build regex remove-empty,regex hooks & P2=$!
    wait $P1 && wait $P2 || exit 2
    export VERIF_PEER=$T/default/release/bb VERIF_SCRATCH=$T
    run "$T/regex/release/bb" "$EV"
    ;;
C19 | C22)
    "$HERE/harness/gen/prepare.sh" /repo "$T/g" || exit 2
    if [ $ID = C19 ]; then
        gen gen tables || whole_grammar
        run "$T/gen/release/gen" "$EV"
    elif gen gen tables,flex; then
        run "$T/gen/release/gen" "$EV"
    elif gen gen tables; then
        echo "note: the reader of scanner files cannot be built on its own; checking the reader of grammar files only"
        run "$T/gen/release/gen" "$EV"
    elif gen gen-small flex; then
        echo "note: the hooks of the generator do not build on this tree; checking the reader of scanner files only"
        run "$T/gen/release/gen-small" "$EV"
    else
        whole_grammar
    fi
    ;;
C20)
    "$HERE/harness/gen/prepare.sh" /repo "$T/g" || exit 2
    gen gen-small graphs || gen gen-small "" || {
        grep -E "^error" -A9 "$T/gen.log" | head -60
        echo "the harness does not build"
        exit 2
    }
    run "$T/gen/release/gen-small" "$EV"
    ;;
C21)
    build default remove-empty hooks & P1=$!
    regenerate
    wait $P1 || exit 2
    peers() {
        local failed= x
        peer peer remove-empty & P1=$!
        peer peer-regex remove-empty,regex & P2=$!
        for x in "$P1 peer" "$P2 peer-regex"; do
            wait ${x% *} || failed=${x#* }
        done
        [ -z "$failed" ] || cp "$T/$failed.log" "$T/failed.log"
        [ -z "$failed" ]
    }
    peers || { hand_written && peers; } || {
        echo "the regenerated parser does not build"
        grep -E "^error" -A9 "$T/failed.log" | head -40
        report "$T/failed.log" build
        exit 1
    }
    export VERIF_PEER=$T/peer/release/bb VERIF_PEER_REGEX=$T/peer-regex/release/bb VERIF_SCRATCH=$T
    run "$T/default/release/bb" "$EV"
    ;;
C24)
    (cd /repo && CARGO_TARGET_DIR=$T/cli cargo build --offline -p postgresql-cst-parser --bin parse > "$T/cli.log" 2>&1) &&
        export VERIF_CLI=$T/cli/debug/parse
    build default remove-empty,web
    run "$T/default/release/bb" "$EV"
    ;;
*)
    build default remove-empty hooks
    run "$T/default/release/bb" "$EV"
    ;;
esac
