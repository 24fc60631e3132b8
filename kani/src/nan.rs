use mapping_algorithms::types::IsNan;
macro_rules! never { ($($n:ident $t:ty),*) => { $(
    #[kani::proof]
    fn $n() {
        let x: $t = kani::any();
        assert!(!IsNan::is_nan(x), concat!("C27 ", stringify!($t)));
        kani::cover!(true, "reached");
    }
)* } }
never!(nan_u8 u8, nan_u16 u16, nan_u32 u32, nan_u64 u64, nan_u128 u128, nan_usize usize,
       nan_i8 i8, nan_i16 i16, nan_i32 i32, nan_i64 i64, nan_i128 i128, nan_isize isize);
#[kani::proof]
fn nan_f32() {
    let b: u32 = kani::any();
    let nan = (b & 0x7f80_0000) == 0x7f80_0000 && (b & 0x007f_ffff) != 0;
    assert!(IsNan::is_nan(f32::from_bits(b)) == nan, "C27 f32");
    kani::cover!(nan, "reached");
    kani::cover!(!nan, "reached");
}
#[kani::proof]
fn nan_f64() {
    let b: u64 = kani::any();
    let nan = (b & 0x7ff0_0000_0000_0000) == 0x7ff0_0000_0000_0000 && (b & 0x000f_ffff_ffff_ffff) != 0;
    assert!(IsNan::is_nan(f64::from_bits(b)) == nan, "C27 f64");
    kani::cover!(nan, "reached");
    kani::cover!(!nan, "reached");
}
