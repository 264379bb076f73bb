// Code generated by cmd/genalias; DO NOT EDIT.

package vrpc

import std "net/rpc"

var DialHTTP = std.DialHTTP
var DialHTTPPath = std.DialHTTPPath
var HandleHTTP = std.HandleHTTP
var NewClientWithCodec = std.NewClientWithCodec
var ServeCodec = std.ServeCodec
var ServeRequest = std.ServeRequest
