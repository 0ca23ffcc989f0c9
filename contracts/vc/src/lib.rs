//! Contracts are functions over a `Chooser`, which supplies the universally
//! quantified values. The same contract is discharged symbolically (Kani) and
//! run concretely (native driver: exhaustive up to a bound, seeded random,
//! replay of a recorded failing input).

pub trait Chooser {
    /// Any value in `0..n` (`n` must be at least 1).
    fn below(&mut self, n: usize) -> usize;
    fn flag(&mut self) -> bool {
        self.below(2) == 1
    }
    /// Any byte.
    fn byte(&mut self) -> u8;
    /// Any 64-bit value.
    fn word(&mut self) -> u64;
    /// Any 64-bit float, including infinities and NaN.
    fn float(&mut self) -> f64;
    /// Any character.
    fn char(&mut self) -> char;
    /// Any finite 64-bit float.
    fn finite(&mut self) -> f64 {
        let v = self.float();
        self.require(v.is_finite());
        v
    }
    /// Restricts the quantified values. The concrete driver abandons the run.
    fn require(&mut self, condition: bool);
    /// Marks a point the contract must be able to reach (vacuity guard).
    fn reached(&mut self);
    /// Notes what the choices stand for (shown in replay files).
    fn note(&mut self, _what: &dyn Fn() -> String) {}
    /// True in the symbolic layer.
    fn symbolic(&self) -> bool {
        false
    }
    /// Any char from the list.
    fn one_of<T: Copy>(&mut self, options: &[T]) -> T
    where
        Self: Sized,
    {
        options[self.below(options.len())]
    }
}

#[cfg(kani)]
pub struct Symbolic;

#[cfg(kani)]
impl Chooser for Symbolic {
    fn below(&mut self, n: usize) -> usize {
        let v: u8 = kani::any();
        kani::assume((v as usize) < n);
        v as usize
    }
    fn byte(&mut self) -> u8 {
        kani::any()
    }
    fn word(&mut self) -> u64 {
        kani::any()
    }
    fn float(&mut self) -> f64 {
        let bits: u64 = kani::any();
        f64::from_bits(bits)
    }
    fn char(&mut self) -> char {
        let code: u32 = kani::any();
        kani::assume(char::from_u32(code).is_some());
        char::from_u32(code).unwrap_or(' ')
    }
    fn require(&mut self, condition: bool) {
        kani::assume(condition);
    }
    fn reached(&mut self) {
        kani::cover!(true, "contract end reached");
    }
    fn symbolic(&self) -> bool {
        true
    }
}

/// Notes what the choices of a run stand for. Nothing in the symbolic layer.
#[cfg(kani)]
#[macro_export]
macro_rules! note {
    ($ch:expr, $($arg:tt)*) => {};
}
#[cfg(not(kani))]
#[macro_export]
macro_rules! note {
    ($ch:expr, $($arg:tt)*) => {
        $ch.note(&|| format!($($arg)*))
    };
}

/// Makes a value live as long as the run of a contract.
#[cfg(kani)]
pub fn keep<T: 'static>(value: T) -> &'static mut T {
    Box::leak(Box::new(value))
}
#[cfg(not(kani))]
pub use native::keep;

#[cfg(not(kani))]
pub mod native;
