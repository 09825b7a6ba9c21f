package slices

import (
	"cmp"
	std "slices"
)

func Equal[E comparable](s1, s2 []E) bool { return std.Equal(s1, s2) }
func EqualFunc[E1, E2 any](s1 []E1, s2 []E2, eq func(E1, E2) bool) bool {
	return std.EqualFunc(s1, s2, eq)
}
func Compare[E cmp.Ordered](s1, s2 []E) int              { return std.Compare(s1, s2) }
func Index[E comparable](s []E, v E) int                 { return std.Index(s, v) }
func IndexFunc[E any](s []E, f func(E) bool) int         { return std.IndexFunc(s, f) }
func Contains[E comparable](s []E, v E) bool             { return std.Contains(s, v) }
func ContainsFunc[E any](s []E, f func(E) bool) bool     { return std.ContainsFunc(s, f) }
func Insert[S ~[]E, E any](s S, i int, v ...E) S         { return std.Insert(s, i, v...) }
func Delete[S ~[]E, E any](s S, i, j int) S              { return std.Delete(s, i, j) }
func Clone[S ~[]E, E any](s S) S                         { return std.Clone(s) }
func Compact[S ~[]E, E comparable](s S) S                { return std.Compact(s) }
func Reverse[E any](s []E)                               { std.Reverse(s) }
func Sort[E cmp.Ordered](s []E)                          { std.Sort(s) }
func SortFunc[E any](s []E, f func(a, b E) int)          { std.SortFunc(s, f) }
func SortStableFunc[E any](s []E, f func(a, b E) int)    { std.SortStableFunc(s, f) }
func BinarySearch[E cmp.Ordered](s []E, t E) (int, bool) { return std.BinarySearch(s, t) }
func Max[E cmp.Ordered](s []E) E                         { return std.Max(s) }
func Min[E cmp.Ordered](s []E) E                         { return std.Min(s) }
