#!/bin/sh
# Makes the atomic operations of the crate under test calls that the scheduler intercepts.
case " $* " in
*" --crate-name av_metrics "* | *" --crate-name av_metrics_entry "*) exec "$@" -Cpasses=tsan-module,tsan -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 ;;
*) exec "$@" ;;
esac
