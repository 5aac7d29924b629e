# Runs the built command-line program on the guest modules that lie beside the demonstration.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export PATH=/opt/wasmtime/bin:$PATH
cp "$D"/*.wasm "$T"/ 2>/dev/null
rc=0
run() { # mode arguments...
    (cd "$T" && timeout 100 wasmtime run --dir . "$R/target/vp/$1/wasm32-wasip1/release/chiwawa.wasm" "${@:2}" 2>&1)
}
expect() { # expected text, arguments...
    for m in tco legacy; do
        o=$(run $m "${@:2}")
        if [[ "$o" != *"$1"* ]]; then
            echo "$m ${*:2}: expected '$1', got: $o"
            rc=1
        fi
    done
}
# checkpoint at the first poll, then resume with the same (or the other) build
expect_ck() { # expected text, arguments...
    for m in tco legacy; do
        rm -f "$T/checkpoint.bin"
        touch "$T/checkpoint.trigger"
        a=$(run $m "${@:2}" --cr)
        if [[ "$a" != *"Execution stopped for checkpoint"* ]]; then
            echo "$m ${*:2}: no checkpoint: $a"
            rc=1
            continue
        fi
        o=$(run $m "$2" --cr --restore checkpoint.bin)
        if [[ "$o" != *"$1"* ]]; then
            echo "$m ${*:2}: after restore expected '$1', got: $o"
            rc=1
        fi
    done
}
