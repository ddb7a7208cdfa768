//@ common
