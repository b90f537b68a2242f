#![feature(compiler_builtins, no_core)]
#![compiler_builtins]
#![no_std]
