//! Number types defined with each of the macros of the library.
pub struct Unchecked {
    pub value: i64,
}
impl From<i64> for Unchecked {
    fn from(value: i64) -> Self {
        Unchecked { value }
    }
}
prexel::impl_unchecked_num_traits_with_field!(Unchecked => value, i64);

pub struct UncheckedText(pub f64);
impl From<f64> for UncheckedText {
    fn from(value: f64) -> Self {
        UncheckedText(value)
    }
}
impl From<i32> for UncheckedText {
    fn from(value: i32) -> Self {
        UncheckedText(f64::from(value))
    }
}
prexel::impl_unchecked_num_traits_with_field_and_from_str!(UncheckedText => 0, f64);

pub struct Checked(pub i64);
impl From<i64> for Checked {
    fn from(value: i64) -> Self {
        Checked(value)
    }
}
prexel::impl_checked_num_traits_with_field!(Checked => 0, i64);

pub struct CheckedText(pub i128);
impl From<i128> for CheckedText {
    fn from(value: i128) -> Self {
        CheckedText(value)
    }
}
prexel::impl_checked_num_traits_with_field_and_from_str!(CheckedText => 0, i128);

/// What the number types have to be for an evaluator to take them.
pub fn are_numbers() {
    fn unchecked<T: prexel::num::unchecked::UncheckedNum>() {}
    fn checked<T: prexel::num::checked::CheckedNum>() {}
    unchecked::<UncheckedText>();
    checked::<CheckedText>();
}
