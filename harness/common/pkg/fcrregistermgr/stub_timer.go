package fcrregistermgr

import "time"

//verif:redirect time.After verifAfter

// the manager is refreshed by hand: its timer never fires
func verifAfter(d time.Duration) <-chan time.Time { return nil }
