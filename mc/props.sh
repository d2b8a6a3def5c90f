# property -> harness package, feature, optimization, time limit
props() {
    limit=840 opt=2 extra= wrap= config= also=
    feat=$(echo "$1" | tr A-Z a-z)
    case "$1" in
        M01|M03|A04|A05) pkg=core ;;
        M02) pkg=macros ;;
        A01|A02|A03|A06) pkg=arith ;;
        C02) pkg=core opt=0 ;;
        P06) pkg=prim opt=0 ;;
        P0[1-5]) pkg=prim ;;
        C01|R0[1-7]) pkg=circ ;;
        D0[1-9]|D10) pkg=pcd ;;
        *) return 1 ;;
    esac
    # What the pcd harness includes into the crate (behind --cfg ragu_mc).
    case "$1" in
        D02|D08|D09) hook=parts ;;
        D03) hook=encode opt=1 wrap=1 ;; # as users build it: arithmetic wraps
        D04) hook=register opt=1 ;;
        D05) hook=transcript opt=1 ;;
        D06) hook=fold opt=1 ;;
        D07) hook=endo opt=1 ;;
        D10) hook=circuits opt=1 ;;
        *) hook=none ;;
    esac
    if [ "$pkg" = pcd ]; then export RUSTFLAGS="--cfg ragu_mc --cap-lints warn" RAGU_MC_PCD=$root/mc/pcd/hooks/$hook.rs; fi
    # A second configuration of the code, whose results the check compares with.
    [ "$1" = R07 ] && extra=r07seq
    # A second configuration of the code that is explored in the same way.
    case "$1" in C01|R02|R06) config=multicore ;; esac
    # Another harness package that explores a part of the property.
    case "$1" in A04) also=circ ;; esac
    if [ "${VERIF_TIER}" = thorough ]; then limit=14400; fi
    export CARGO_PROFILE_RELEASE_OPT_LEVEL=$opt
    if [ -n "$wrap" ]; then export CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=false CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=false; fi
}
