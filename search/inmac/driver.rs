// expanded by rustc with INMAC_* in the environment (check.py)
inmac::run! {
    a r#fn _b (c "d\n" 1.5 'x' [ + += - 7u8 ] {}) 'lt {deep {er b"q" c"z"} => ..= }
    /// doc
    #[attr(x = "é")] r"raw" 0x1f_u32 1e9 -2 & &&
    ()
}
