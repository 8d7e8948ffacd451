package main

func dbgMain() {}
