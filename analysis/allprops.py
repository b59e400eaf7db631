import props_types, props_splay, props_order, props_sweep, props_cross, props_active, props_bops, props_mono, props_scan
