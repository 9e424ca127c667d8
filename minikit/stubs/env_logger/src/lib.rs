pub fn try_init() -> Result<(), ()> { Ok(()) }
