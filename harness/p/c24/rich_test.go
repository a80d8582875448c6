package c24

import (
	"errors"

	"github.com/bantling/micro/event"
)

// Methods that have no bearing on whether, when, and how often a receiver is called

func (r *ptr) Enabled() bool                       { return false }
func (r *ptr) IsEnabled() bool                     { return false }
func (r *ptr) Disabled() bool                      { return true }
func (r *ptr) Active() bool                        { return false }
func (r *ptr) Done() bool                          { return true }
func (r *ptr) Skip() bool                          { return true }
func (r *ptr) Stop() bool                          { return true }
func (r *ptr) Once() bool                          { return true }
func (r *ptr) Last() bool                          { return true }
func (r *ptr) Equal(any) bool                      { return true }
func (r *ptr) IsZero() bool                        { return true }
func (r *ptr) IsNil() bool                         { return true }
func (r *ptr) Close() error                        { r.tag = "closed"; return nil }
func (r *ptr) Init()                               { r.tag = "inited" }
func (r *ptr) Reset()                              { r.tag = "reset" }
func (r *ptr) OnRemove()                           { r.tag = "gone" }
func (r *ptr) OnRegister()                         { r.tag = "here" }
func (r *ptr) Clone() event.Receiver[string]       { return &ptr{tag: "clone"} }
func (r *ptr) Removed() bool                       { return true }
func (r *ptr) Cancelled() bool                     { return true }
func (r *ptr) Closed() bool                        { return true }
func (r *ptr) Ready() bool                         { return false }
func (r *ptr) Accepts(string) bool                 { return false }
func (r *ptr) Handles(string) bool                 { return false }
func (r *ptr) Wants(string) bool                   { return false }
func (r *ptr) Match(string) bool                   { return false }
func (r *ptr) Filter(string) bool                  { return false }
func (r *ptr) Priority() int                       { return 1 }
func (r *ptr) Order() int                          { return 1 }
func (r *ptr) Weight() int                         { return 1 }
func (r *ptr) ID() string                          { return "id" }
func (r *ptr) Id() int                             { return 1 }
func (r *ptr) Name() string                        { return "name" }
func (r *ptr) Err() error                          { return errors.New("an error") }
func (r *ptr) Validate() error                     { return errors.New("an error") }
func (r *ptr) ProcessAll(s []string) []string      { return nil }
func (r *ptr) ProcessErr(string) (string, error)   { return "", errors.New("an error") }
func (r *ptr) Before(string) string                { return "" }
func (r *ptr) After(string) string                 { return "" }
func (r *ptr) Unwrap() event.Receiver[string]      { return nil }
func (r *ptr) Next() event.Receiver[string]        { return nil }
func (r *ptr) Receivers() []event.Receiver[string] { return nil }
func (r *ptr) Receive(string) string               { return "" }
func (r *ptr) Handle(string) string                { return "" }

func (r val) Enabled() bool                       { return false }
func (r val) IsEnabled() bool                     { return false }
func (r val) Disabled() bool                      { return true }
func (r val) Active() bool                        { return false }
func (r val) Done() bool                          { return true }
func (r val) Skip() bool                          { return true }
func (r val) Stop() bool                          { return true }
func (r val) Once() bool                          { return true }
func (r val) Last() bool                          { return true }
func (r val) Removed() bool                       { return true }
func (r val) Cancelled() bool                     { return true }
func (r val) Closed() bool                        { return true }
func (r val) Ready() bool                         { return false }
func (r val) Accepts(string) bool                 { return false }
func (r val) Handles(string) bool                 { return false }
func (r val) Wants(string) bool                   { return false }
func (r val) Match(string) bool                   { return false }
func (r val) Filter(string) bool                  { return false }
func (r val) Priority() int                       { return 1 }
func (r val) Order() int                          { return 1 }
func (r val) Weight() int                         { return 1 }
func (r val) ID() string                          { return "id" }
func (r val) Id() int                             { return 1 }
func (r val) Name() string                        { return "name" }
func (r val) Err() error                          { return errors.New("an error") }
func (r val) Validate() error                     { return errors.New("an error") }
func (r val) ProcessAll(s []string) []string      { return nil }
func (r val) ProcessErr(string) (string, error)   { return "", errors.New("an error") }
func (r val) Before(string) string                { return "" }
func (r val) After(string) string                 { return "" }
func (r val) Unwrap() event.Receiver[string]      { return nil }
func (r val) Next() event.Receiver[string]        { return nil }
func (r val) Receivers() []event.Receiver[string] { return nil }
func (r val) Receive(string) string               { return "" }
func (r val) Handle(string) string                { return "" }

func (r val2) Enabled() bool                       { return false }
func (r val2) IsEnabled() bool                     { return false }
func (r val2) Disabled() bool                      { return true }
func (r val2) Active() bool                        { return false }
func (r val2) Done() bool                          { return true }
func (r val2) Skip() bool                          { return true }
func (r val2) Stop() bool                          { return true }
func (r val2) Once() bool                          { return true }
func (r val2) Last() bool                          { return true }
func (r val2) Removed() bool                       { return true }
func (r val2) Cancelled() bool                     { return true }
func (r val2) Closed() bool                        { return true }
func (r val2) Ready() bool                         { return false }
func (r val2) Accepts(string) bool                 { return false }
func (r val2) Handles(string) bool                 { return false }
func (r val2) Wants(string) bool                   { return false }
func (r val2) Match(string) bool                   { return false }
func (r val2) Filter(string) bool                  { return false }
func (r val2) Priority() int                       { return 1 }
func (r val2) Order() int                          { return 1 }
func (r val2) Weight() int                         { return 1 }
func (r val2) ID() string                          { return "id" }
func (r val2) Id() int                             { return 1 }
func (r val2) Name() string                        { return "name" }
func (r val2) Err() error                          { return errors.New("an error") }
func (r val2) Validate() error                     { return errors.New("an error") }
func (r val2) ProcessAll(s []string) []string      { return nil }
func (r val2) ProcessErr(string) (string, error)   { return "", errors.New("an error") }
func (r val2) Before(string) string                { return "" }
func (r val2) After(string) string                 { return "" }
func (r val2) Unwrap() event.Receiver[string]      { return nil }
func (r val2) Next() event.Receiver[string]        { return nil }
func (r val2) Receivers() []event.Receiver[string] { return nil }
func (r val2) Receive(string) string               { return "" }
func (r val2) Handle(string) string                { return "" }
