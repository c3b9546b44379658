// Code generated by genalias; DO NOT EDIT.

package vcontext

import real "context"

var Background = real.Background
var TODO = real.TODO
var WithValue = real.WithValue
var WithoutCancel = real.WithoutCancel
