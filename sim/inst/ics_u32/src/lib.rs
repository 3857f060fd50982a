simcore::stack_instance!(ConcurrentStackRB, conc_stack_default, u32);
