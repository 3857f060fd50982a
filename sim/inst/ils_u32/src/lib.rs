simcore::stack_instance!(LocalStackRB, local_stack_default, u32);
