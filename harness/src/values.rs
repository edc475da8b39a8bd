//! Strategies for component values.

use proptest::prelude::*;

const SPECIAL: [u64; 40] = [
    0,
    1,
    2,
    0xff,
    0x100,
    0x7f,
    0x80,
    0xffff_ffff,
    0x7fff_ffff,
    0x8000_0000,
    0x8000_0001,
    // f32: -0, 1, -1, inf, -inf, quiet NaN, signalling NaN, NaN payloads, subnormals, max
    0x3f80_0000,
    0xbf80_0000,
    0x7f80_0000,
    0xff80_0000,
    0x7fc0_0000,
    0x7f80_0001,
    0xffc1_2345,
    0xffff_fffe,
    0x0000_0001,
    0x007f_ffff,
    0x7f7f_ffff,
    0x0080_0000,
    // f64
    0x8000_0000_0000_0000,
    0x3ff0_0000_0000_0000,
    0xbff0_0000_0000_0000,
    0x7ff0_0000_0000_0000,
    0xfff0_0000_0000_0000,
    0x7ff8_0000_0000_0000,
    0x7ff0_0000_0000_0001,
    0xfff8_1234_5678_9abc,
    0xffff_ffff_ffff_ffff,
    0x0000_0000_0000_0001,
    0x000f_ffff_ffff_ffff,
    0x7fef_ffff_ffff_ffff,
    0x0010_0000_0000_0000,
    0x4000_0000_0000_0000,
    0x0123_4567_89ab_cdef,
    0x0100_0000,
    0x0001_0000,
];

pub fn word() -> BoxedStrategy<u64> {
    prop_oneof![
        5 => any::<u64>(),
        2 => 0u64..5,
        3 => prop::sample::select(&SPECIAL[..]),
        2 => (1u64..255).prop_map(|b| b.wrapping_mul(0x0101_0101_0101_0101) ^ 0x0302_0100_0705_0403),
    ]
    .boxed()
}

/// Raw words for one value; stretched to the component count by the model.
pub fn raw(max: usize) -> BoxedStrategy<Vec<u64>> {
    prop::collection::vec(word(), 1..=max.clamp(1, 40)).boxed()
}

pub fn bytes(n: usize) -> BoxedStrategy<Vec<u8>> {
    // Mostly arbitrary, sometimes sparse, sometimes constant.
    prop_oneof![
        4 => prop::collection::vec(any::<u8>(), n),
        2 => prop::collection::vec(prop_oneof![3 => Just(0u8), 1 => any::<u8>()], n),
        1 => any::<u8>().prop_map(move |b| vec![b; n]),
    ]
    .boxed()
}
