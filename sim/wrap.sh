#!/bin/sh
# rustc wrapper: instruments the code under test and the simulated program with preemption points
# (every branch and memory access calls into the simulator). Nothing else is changed.
rustc="$1"; shift
case " $* " in
  *" --crate-name ros_pointcloud2 "*|*" --crate-name sim_"*)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-loads \
      -C llvm-args=-sanitizer-coverage-trace-stores ;;
  *) exec "$rustc" "$@" ;;
esac
