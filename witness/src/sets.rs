builds! { ff_all = 0xfff, ff_none = 0 }
