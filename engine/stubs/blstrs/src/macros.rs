/// Given `&L op &R = O` generate the other three reference combinations.
macro_rules! fwd {
    ($tr:ident, $f:ident, $l:ty, $r:ty, $o:ty) => {
        impl $tr<$r> for &$l {
            type Output = $o;
            fn $f(self, r: $r) -> $o {
                $tr::$f(self, &r)
            }
        }
        impl $tr<&$r> for $l {
            type Output = $o;
            fn $f(self, r: &$r) -> $o {
                $tr::$f(&self, r)
            }
        }
        impl $tr<$r> for $l {
            type Output = $o;
            fn $f(self, r: $r) -> $o {
                $tr::$f(&self, &r)
            }
        }
    };
}
macro_rules! fwd_assign {
    ($tr:ident, $f:ident, $op:tt, $l:ty, $r:ty) => {
        impl $tr<&$r> for $l {
            fn $f(&mut self, r: &$r) {
                *self = (&*self $op r).into();
            }
        }
        impl $tr<$r> for $l {
            fn $f(&mut self, r: $r) {
                *self = (&*self $op &r).into();
            }
        }
    };
}
macro_rules! field_ops {
    ($t:ident) => {
        impl Add<&$t> for &$t {
            type Output = $t;
            fn add(self, o: &$t) -> $t {
                $t::mk(symcore::add(self.v(), o.v()))
            }
        }
        impl Sub<&$t> for &$t {
            type Output = $t;
            fn sub(self, o: &$t) -> $t {
                $t::mk(symcore::sub(self.v(), o.v()))
            }
        }
        impl Mul<&$t> for &$t {
            type Output = $t;
            fn mul(self, o: &$t) -> $t {
                $t::mk(symcore::mul(self.v(), o.v()))
            }
        }
        impl Neg for &$t {
            type Output = $t;
            fn neg(self) -> $t {
                $t::mk(symcore::neg(self.v()))
            }
        }
        impl Neg for $t {
            type Output = $t;
            fn neg(self) -> $t {
                $t::mk(symcore::neg(self.v()))
            }
        }
        fwd!(Add, add, $t, $t, $t);
        fwd!(Sub, sub, $t, $t, $t);
        fwd!(Mul, mul, $t, $t, $t);
        fwd_assign!(AddAssign, add_assign, +, $t, $t);
        fwd_assign!(SubAssign, sub_assign, -, $t, $t);
        fwd_assign!(MulAssign, mul_assign, *, $t, $t);
        impl<T: Borrow<$t>> Sum<T> for $t {
            fn sum<I: Iterator<Item = T>>(it: I) -> Self {
                it.fold(<$t as ff::Field>::ZERO, |a, x| &a + x.borrow())
            }
        }
        impl<T: Borrow<$t>> Product<T> for $t {
            fn product<I: Iterator<Item = T>>(it: I) -> Self {
                it.fold(<$t as ff::Field>::ONE, |a, x| &a * x.borrow())
            }
        }
        impl Eq for $t {}
        impl ConstantTimeEq for $t {
            fn ct_eq(&self, o: &Self) -> Choice {
                Choice::from((self == o) as u8)
            }
        }
        impl ConditionallySelectable for $t {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                if bool::from(c) {
                    *b
                } else {
                    *a
                }
            }
        }
    };
}
