//! Builds crevice with one combination of features.
#![no_std]
