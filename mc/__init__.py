"""Bounded model checking of pymanopt (see /verif/DESIGN.md)."""
