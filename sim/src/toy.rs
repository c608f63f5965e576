//! Small 2-cycles of prime-order short Weierstrass curves (y² = x³ + b).
//!
//! Found by CM with D = 3; each base field is the other's scalar field and x = 0 is on neither
//! curve, as the library requires.  They run the library's real generic code 20-50 times faster
//! than the 256-bit cycles, so the simulator can afford many more runs.
macro_rules! cycle {
    ($m:ident, $B:ident, $limbs:expr,
     $p:literal, $pg:literal, $q:literal, $qg:literal,
     $eb:literal, $ex:literal, $ey:literal,
     $ob:literal, $ox:literal, $oy:literal) => {
        #[allow(non_local_definitions)]
        pub mod $m {
            use ark_ec::models::short_weierstrass::{Affine, Projective, SWCurveConfig};
            use ark_ec::CurveConfig;
            use ark_ff::{$B, Field, MontBackend, MontConfig, MontFp};
            #[derive(MontConfig)]
            #[modulus = $p]
            #[generator = $pg]
            pub struct PConfig;
            /// the field the even curve is defined over (scalars of the odd curve)
            pub type Fp = $B<MontBackend<PConfig, $limbs>>;
            #[derive(MontConfig)]
            #[modulus = $q]
            #[generator = $qg]
            pub struct QConfig;
            /// the field the odd curve is defined over (scalars of the even curve)
            pub type Fq = $B<MontBackend<QConfig, $limbs>>;

            #[derive(Copy, Clone, Default, PartialEq, Eq)]
            pub struct Even;
            impl CurveConfig for Even {
                type BaseField = Fp;
                type ScalarField = Fq;
                const COFACTOR: &'static [u64] = &[1];
                const COFACTOR_INV: Fq = Fq::ONE;
            }
            impl SWCurveConfig for Even {
                const COEFF_A: Fp = Fp::ZERO;
                const COEFF_B: Fp = MontFp!($eb);
                const GENERATOR: Affine<Self> =
                    Affine::new_unchecked(MontFp!($ex), MontFp!($ey));
            }
            #[derive(Copy, Clone, Default, PartialEq, Eq)]
            pub struct Odd;
            impl CurveConfig for Odd {
                type BaseField = Fq;
                type ScalarField = Fp;
                const COFACTOR: &'static [u64] = &[1];
                const COFACTOR_INV: Fp = Fp::ONE;
            }
            impl SWCurveConfig for Odd {
                const COEFF_A: Fq = Fq::ZERO;
                const COEFF_B: Fq = MontFp!($ob);
                const GENERATOR: Affine<Self> =
                    Affine::new_unchecked(MontFp!($ox), MontFp!($oy));
            }
            pub type EvenA = Affine<Even>;
            pub type OddA = Affine<Odd>;
            pub type EvenP = Projective<Even>;
            pub type OddP = Projective<Odd>;
        }
    };
}
cycle!(t61, Fp64, 1,
    "1372621230287038327", "3", "1372621231847651983", "3",
    "3", "1", "2",
    "7", "1", "238967044562372616");
cycle!(t90, Fp128, 2,
    "1233241635660909927533414299", "2", "1233241635660856679802217447", "3",
    "19", "1", "157380380222268597300270878",
    "6", "1", "443060627946647330964232067");
cycle!(t127, Fp128, 2,
    "109106224746943819790469245694629410279", "6", "109106224746943819773299456108396780959", "6",
    "6", "1", "3307913369217428759837311259722552844",
    "6", "3", "39477137143439485952745726108804314148");
