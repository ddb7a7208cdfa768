/// Contract of `fast_thread_rng`: a generator of arbitrary values.
pub fn any_rng() -> SmallThreadRng { SmallThreadRng { rng: Rc::new(UnsafeCell::new(SmallRng::from_rng(&mut rand::thread_rng()).unwrap())) } }
