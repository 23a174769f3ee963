#![no_std]
