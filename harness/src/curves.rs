//! Toy curves. The code under test is generic over the curve, so small curves run the very same code.
use ark_ec::models::CurveConfig;
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ff::fields::{Fp64, MontBackend, MontConfig};
use ark_ff::{Fp128, MontFp};

#[macro_export]
macro_rules! field1 {
    ($cfg:ident, $t:ident, $m:literal, $g:literal) => {
        #[derive(MontConfig)]
        #[modulus = $m]
        #[generator = $g]
        pub struct $cfg;
        pub type $t = Fp64<MontBackend<$cfg, 1>>;
    };
}
macro_rules! field2 {
    ($cfg:ident, $t:ident, $m:literal, $g:literal) => {
        #[derive(MontConfig)]
        #[modulus = $m]
        #[generator = $g]
        pub struct $cfg;
        pub type $t = Fp128<MontBackend<$cfg, 2>>;
    };
}
macro_rules! curve {
    ($cfg:ident, $aff:ident, $fq:ty, $fr:ty, $cof:literal, $cofinv:literal, $a:literal, $b:literal, $x:literal, $y:literal) => {
        #[derive(Copy, Clone, Default, PartialEq, Eq, Debug)]
        pub struct $cfg;
        impl CurveConfig for $cfg {
            type BaseField = $fq;
            type ScalarField = $fr;
            const COFACTOR: &'static [u64] = &[$cof];
            const COFACTOR_INV: $fr = MontFp!($cofinv);
        }
        impl SWCurveConfig for $cfg {
            const COEFF_A: $fq = MontFp!($a);
            const COEFF_B: $fq = MontFp!($b);
            const GENERATOR: Affine<Self> = Affine::new_unchecked(MontFp!($x), MontFp!($y));
        }
        pub type $aff = Affine<$cfg>;
    };
}
/// 61-bit cycle (bit length = 1 mod 3).
pub mod m61 {
    use super::*;
    field1!(PCfg, Fp, "1584279198782094457", "7");
    field1!(QCfg, Fq, "1584279196389167689", "7");
    curve!(Even, EvenA, Fp, Fq, 1, "1", "0", "7", "1", "281750805828418136");
    curve!(Odd, OddA, Fq, Fp, 1, "1", "0", "17", "1", "760964126971132261");
}
/// 60-bit cycle (bit length = 0 mod 3, like pasta).
pub mod m60 {
    use super::*;
    field1!(PCfg, Fp, "601371756412592707", "2");
    field1!(QCfg, Fq, "601371754999350619", "2");
    curve!(Even, EvenA, Fp, Fq, 1, "1", "0", "2", "2", "96835870848748467");
    curve!(Odd, OddA, Fq, Fp, 1, "1", "0", "2", "3", "161334761361936767");
}
/// 62-bit cycle (bit length = 2 mod 3).
pub mod m62 {
    use super::*;
    field1!(PCfg, Fp, "2383543402233121423", "3");
    field1!(QCfg, Fq, "2383543399498647949", "2");
    curve!(Even, EvenA, Fp, Fq, 1, "1", "0", "3", "1", "2");
    curve!(Odd, OddA, Fq, Fp, 1, "1", "0", "18", "1", "740021591374053054");
}
/// 126-bit cycle, large enough for 64-bit amounts.
pub mod m126 {
    use super::*;
    field2!(PCfg, Fp, "42737402274495089891702357729033682241", "13");
    field2!(QCfg, Fq, "42737402274495089890529857270605225451", "3");
    curve!(Even, EvenA, Fp, Fq, 1, "1", "0", "67", "2", "17117281880368093025606808426072650508");
    curve!(Odd, OddA, Fq, Fp, 1, "1", "0", "3", "1", "2");
}
/// Tiny curves with a cofactor (found by exhaustive point counting; see DESIGN.md): small enough for
/// exhaustive solving, with a proper subgroup so that 'a multiple of H' means something.
pub mod tiny {
    use super::*;
    /// order 4 * 37 over F_127; parent curve of order 127 over F_131
    pub mod t6zl {
        use super::*;
        field1!(SCfg, Fs, "37", "2");
        field1!(BCfg, Fb, "127", "3");
        field1!(TCfg, Ft, "131", "2");
        curve!(Child, ChildA, Fb, Fs, 4, "28", "0", "33", "11", "100");
        curve!(Parent, ParentA, Ft, Fb, 1, "1", "103", "89", "0", "58");
    }
    /// order 3 * 61 over F_163; parent curve of order 163 over F_167
    pub mod t6ah {
        use super::*;
        field1!(SCfg, Fs, "61", "2");
        field1!(BCfg, Fb, "163", "2");
        field1!(TCfg, Ft, "167", "5");
        curve!(Child, ChildA, Fb, Fs, 3, "41", "21", "72", "66", "97");
        curve!(Parent, ParentA, Ft, Fb, 1, "1", "114", "111", "4", "56");
    }
    /// order 4 * 127 over F_547; parent curve of order 547 over F_541
    pub mod t7zh {
        use super::*;
        field1!(SCfg, Fs, "127", "3");
        field1!(BCfg, Fb, "547", "2");
        field1!(TCfg, Ft, "541", "2");
        curve!(Child, ChildA, Fb, Fs, 4, "32", "0", "457", "162", "447");
        curve!(Parent, ParentA, Ft, Fb, 1, "1", "289", "487", "2", "156");
    }
    /// order 4 * 67 over F_239; parent curve of order 239 over F_241
    pub mod t7al {
        use super::*;
        field1!(SCfg, Fs, "67", "2");
        field1!(BCfg, Fb, "239", "7");
        field1!(TCfg, Ft, "241", "7");
        curve!(Child, ChildA, Fb, Fs, 4, "17", "34", "177", "206", "101");
        curve!(Parent, ParentA, Ft, Fb, 1, "1", "212", "197", "1", "13");
    }
    /// order 4 * 139 over F_571; parent curve of order 571 over F_569
    pub mod t8zl {
        use super::*;
        field1!(SCfg, Fs, "139", "2");
        field1!(BCfg, Fb, "571", "3");
        field1!(TCfg, Ft, "569", "3");
        curve!(Child, ChildA, Fb, Fs, 4, "35", "0", "382", "77", "238");
        curve!(Parent, ParentA, Ft, Fb, 1, "1", "368", "86", "0", "76");
    }
    /// order 3 * 251 over F_733; parent curve of order 733 over F_727
    pub mod t8ah {
        use super::*;
        field1!(SCfg, Fs, "251", "6");
        field1!(BCfg, Fb, "733", "6");
        field1!(TCfg, Ft, "727", "5");
        curve!(Child, ChildA, Fb, Fs, 3, "84", "68", "290", "17", "616");
        curve!(Parent, ParentA, Ft, Fb, 1, "1", "382", "676", "0", "26");
    }
    /// order 3 * 509 over F_1459; parent curve of order 1459 over F_1453
    pub mod t9ah {
        use super::*;
        field1!(SCfg, Fs, "509", "2");
        field1!(BCfg, Fb, "1459", "3");
        field1!(TCfg, Ft, "1453", "2");
        curve!(Child, ChildA, Fb, Fs, 3, "170", "1053", "1091", "1441", "305");
        curve!(Parent, ParentA, Ft, Fb, 1, "1", "1264", "870", "1", "71");
    }
    /// order 2 * 521 over F_1031; parent curve of order 1031 over F_1033
    pub mod t10al {
        use super::*;
        field1!(SCfg, Fs, "521", "3");
        field1!(BCfg, Fb, "1031", "14");
        field1!(TCfg, Ft, "1033", "5");
        curve!(Child, ChildA, Fb, Fs, 2, "261", "158", "524", "103", "13");
        curve!(Parent, ParentA, Ft, Fb, 1, "1", "227", "663", "3", "87");
    }
    /// order 7 over F_5
    pub mod s7 {
        use super::*;
        field1!(SCfg, Fs, "7", "3");
        field1!(TCfg, Ft, "5", "2");
        curve!(Parent, ParentA, Ft, Fs, 1, "1", "2", "1", "0", "1");
    }
    /// order 13 over F_7
    pub mod s13 {
        use super::*;
        field1!(SCfg, Fs, "13", "2");
        field1!(TCfg, Ft, "7", "3");
        curve!(Parent, ParentA, Ft, Fs, 1, "1", "0", "3", "1", "2");
    }
    /// order 31 over F_23
    pub mod s31 {
        use super::*;
        field1!(SCfg, Fs, "31", "3");
        field1!(TCfg, Ft, "23", "5");
        curve!(Parent, ParentA, Ft, Fs, 1, "1", "5", "1", "0", "1");
    }
}
