// Code generated by genalias; DO NOT EDIT.

package vsync

import real "sync"

type Locker = real.Locker
