pub assume_specification<T: Default> [core::mem::take] (x: &mut T) -> (r: T) ensures r == *old(x), T::default.ensures((), *final(x));
