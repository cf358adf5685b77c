# build_ext REPO: rebuild the four Cython extensions in place when their sources changed (stamps as /opt/vp/ext.sh)
build_ext() {
    local repo=${1:-/repo} spec dir name gen so stamp need=0 sum sums=()
    cd "$repo" || return 1
    export PIP_NO_INDEX=1 PIP_DISABLE_PIP_VERSION_CHECK=1 SETUPTOOLS_SCM_PRETEND_VERSION=0.9.9.2
    exec 9>/tmp/.pyvc_build_lock; flock 9
    mkdir -p build/vpstamps
    for spec in pygsti/tools:fastcalc:c pygsti/objects/opcalc:fastopcalc:cpp \
                pygsti/objects/replib:fastreplib:cpp pygsti/io/circuitparser:fastcircuitparser:cpp; do
        IFS=: read -r dir name gen <<<"$spec"
        stamp=build/vpstamps/$name
        sum=$( { sha256sum setup.py; find pygsti \( -name '*.pyx' -o -name '*.pxd' -o -name '*.h' -o -name 'fastreps.cpp' \) \
                     \( -path "$dir/*" -o -name '*.pxd' \) | sort | xargs sha256sum; } | sha256sum)
        so=$(ls "$dir/$name".cpython-*.so 2>/dev/null)
        if [ -z "$so" ] || [ "$sum" != "$(cat "$stamp" 2>/dev/null)" ]; then
            need=1
            rm -f "$stamp" "$dir/$name".cpython-*.so "$dir/$name.$gen"
            rm -f build/lib*/"$dir/$name".cpython-*.so
        fi
        sums[${#sums[@]}]="$dir $name $sum"
    done
    [ $need = 0 ] && return 0
    /opt/venv/bin/python setup.py build_ext --inplace -j 4 >build/vp_build_ext.log 2>&1
    local rc=$? line bad=0
    for line in "${sums[@]}"; do
        read -r dir name sum <<<"$line"
        if ls "$dir/$name".cpython-*.so >/dev/null 2>&1; then echo "$sum" >build/vpstamps/$name; else bad=1; fi
    done
    [ $rc = 0 ] && [ $bad = 0 ] || { tail -30 build/vp_build_ext.log >&2; return 1; }
}
