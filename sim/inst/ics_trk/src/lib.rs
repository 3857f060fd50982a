simcore::stack_instance!(ConcurrentStackRB, conc_stack_default, simcore::items::Trk);
