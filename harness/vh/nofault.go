//go:build !faults

package vh

// Fault: this driver was built without faults.
type Fault struct{}

func FaultFrom(m M, dir string) *Fault {
	Fatal("built without faults")
	return nil
}
func (f *Fault) Set()      {}
func (f *Fault) Lift()     {}
func (f *Fault) Met() bool { return false }
