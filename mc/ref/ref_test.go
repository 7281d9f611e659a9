package ref

import "testing"

func TestSelf(t *testing.T) { SelfTestDeep() }
