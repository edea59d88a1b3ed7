package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/Bren2010/katie/tree/prefix"
	"github.com/Bren2010/katie/tree/transparency/auditor"
	"github.com/Bren2010/katie/tree/transparency/structs"
)

// codec encodes and decodes one kind of structure.
type codec struct {
	name string
	zero any // pointer to an empty structure
	dec  func(pub *structs.PublicConfig, hasVersion bool, buf *bytes.Buffer) (any, error)
}

func enc(x any) ([]byte, error) {
	if s, ok := x.(*auditor.AuditorState); ok {
		return s.Marshal()
	}
	return structs.Marshal(x.(structs.Marshaller))
}

// codecs of everything that is sent over the wire or stored. hasVersion says
// whether a search request, that a search response belongs to, has a version.
var codecs = []codec{
	{"SearchRequest", &structs.SearchRequest{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewSearchRequest(b)
	}},
	{"SearchResponse", &structs.SearchResponse{}, func(pub *structs.PublicConfig, v bool, b *bytes.Buffer) (any, error) {
		req := &structs.SearchRequest{}
		if v {
			req.Version = ptr(uint32(3))
		}
		return structs.NewSearchResponse(pub, req, b)
	}},
	{"ContactMonitorRequest", &structs.ContactMonitorRequest{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewContactMonitorRequest(b)
	}},
	{"ContactMonitorResponse", &structs.ContactMonitorResponse{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewContactMonitorResponse(pub, b)
	}},
	{"OwnerInitRequest", &structs.OwnerInitRequest{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewOwnerInitRequest(b)
	}},
	{"OwnerInitResponse", &structs.OwnerInitResponse{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewOwnerInitResponse(pub, b)
	}},
	{"OwnerMonitorRequest", &structs.OwnerMonitorRequest{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewOwnerMonitorRequest(b)
	}},
	{"OwnerMonitorResponse", &structs.OwnerMonitorResponse{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewOwnerMonitorResponse(pub, b)
	}},
	{"UpdateRequest", &structs.UpdateRequest{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewUpdateRequest(b)
	}},
	{"ManagerUpdateRequest", &structs.ManagerUpdateRequest{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewManagerUpdateRequest(pub, b)
	}},
	{"UpdateResponse", &structs.UpdateResponse{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewUpdateResponse(pub, b)
	}},
	{"AuditorUpdate", &structs.AuditorUpdate{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewAuditorUpdate(pub.Suite, b)
	}},
	{"TreeHead", &structs.TreeHead{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) { return structs.NewTreeHead(b) }},
	{"AuditorTreeHead", &structs.AuditorTreeHead{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewAuditorTreeHead(b)
	}},
	{"FullTreeHead", &structs.FullTreeHead{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewFullTreeHead(pub, b)
	}},
	{"LogEntry", &structs.LogEntry{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewLogEntry(pub.Suite, b)
	}},
	{"IndexedLogEntry", &structs.IndexedLogEntry{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewIndexedLogEntry(pub.Suite, b)
	}},
	{"BinaryLadderStep", &structs.BinaryLadderStep{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewBinaryLadderStep(pub.Suite, b)
	}},
	{"OpeningAndValue", &structs.OpeningAndValue{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewOpeningAndValue(pub, b)
	}},
	{"UpdateValue", &structs.UpdateValue{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewUpdateValue(pub, b)
	}},
	{"UpdateSuffix", &structs.UpdateSuffix{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewUpdateSuffix(pub, b)
	}},
	{"UpdateInfo", &structs.UpdateInfo{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewUpdateInfo(pub, b)
	}},
	{"LabelValue", &structs.LabelValue{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) { return structs.NewLabelValue(b) }},
	{"MonitorMapEntry", &structs.MonitorMapEntry{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewMonitorMapEntry(b)
	}},
	{"CombinedTreeProof", &structs.CombinedTreeProof{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewCombinedTreeProof(pub.Suite, b)
	}},
	{"InclusionProof", &structs.InclusionProof{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewInclusionProof(pub.Suite, b)
	}},
	{"PrefixProof", &prefix.PrefixProof{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return prefix.NewPrefixProof(pub.Suite, b)
	}},
	{"ClientState", &structs.ClientState{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewClientState(pub, b)
	}},
	{"LabelOwnerState", &structs.LabelOwnerState{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewLabelOwnerState(b)
	}},
	{"RetainedVersion", &structs.RetainedVersion{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewRetainedVersion(pub.Suite, b)
	}},
	{"ClientLabelState", &structs.ClientLabelState{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return structs.NewClientLabelState(pub.Suite, b)
	}},
	{"AuditorState", &auditor.AuditorState{}, func(pub *structs.PublicConfig, _ bool, b *bytes.Buffer) (any, error) {
		return auditor.NewAuditorState(pub.Suite, b)
	}},
}

func codecOf(x any) codec {
	for _, c := range codecs {
		if reflect.TypeOf(c.zero) == reflect.TypeOf(x) {
			return c
		}
	}
	panic(fmt.Sprintf("harness: no codec for %T", x))
}

// diff compares two structures, and returns where they differ, or "". Empty
// and absent lists are the same.
func diff(a, b any) string { return diffValues(reflect.ValueOf(a), reflect.ValueOf(b), "") }

func diffValues(a, b reflect.Value, path string) string {
	if a.IsValid() != b.IsValid() {
		return path + ": one is missing"
	} else if !a.IsValid() {
		return ""
	} else if a.Type() != b.Type() {
		return fmt.Sprintf("%s: %v and %v", path, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return path + ": one is nil"
		} else if a.IsNil() {
			return ""
		}
		return diffValues(a.Elem(), b.Elem(), path)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := diffValues(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d and %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diffValues(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: size %d and %d", path, a.Len(), b.Len())
		}
		for _, key := range a.MapKeys() {
			if d := diffValues(a.MapIndex(key), b.MapIndex(key), fmt.Sprintf("%s[%v]", path, key)); d != "" {
				return d
			}
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s: %d and %d", path, a.Uint(), b.Uint())
		}
	case reflect.Int, reflect.Int64, reflect.Int32:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %d and %d", path, a.Int(), b.Int())
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return path + ": differ"
		}
	default:
		panic(fmt.Sprintf("harness: can't compare %v", a.Kind()))
	}
	return ""
}
