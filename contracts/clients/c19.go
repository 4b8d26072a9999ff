//overlay: types/zz_gover_c19.go
package types

// The text and JSON round trip of a declared enumeration value.
func goverEnumRoundTrip(es EnumSupport, e uint) uint {
	b, err := es.MarshJSON(e)
	if err != nil {
		return e
	}
	out, err := es.UnmarshJSON(b)
	if err != nil {
		return e
	}
	return out
}

// ---- each enumeration

func goverSpecState(v SpecState) SpecState {
	b, err := v.MarshalJSON()
	if err != nil {
		return v
	}
	var out SpecState
	if out.UnmarshalJSON(b) != nil {
		return v
	}
	return out
}
func goverSpecStateText(v SpecState) string { return v.String() }

func goverNodeType(v NodeType) NodeType {
	b, err := v.MarshalJSON()
	if err != nil {
		return v
	}
	var out NodeType
	if out.UnmarshalJSON(b) != nil {
		return v
	}
	return out
}
func goverNodeTypeText(v NodeType) string { return v.String() }

func goverSpecEventType(v SpecEventType) SpecEventType {
	b, err := v.MarshalJSON()
	if err != nil {
		return v
	}
	var out SpecEventType
	if out.UnmarshalJSON(b) != nil {
		return v
	}
	return out
}
func goverSpecEventTypeText(v SpecEventType) string { return v.String() }

func goverFailureNodeContext(v FailureNodeContext) FailureNodeContext {
	b, err := v.MarshalJSON()
	if err != nil {
		return v
	}
	var out FailureNodeContext
	if out.UnmarshalJSON(b) != nil {
		return v
	}
	return out
}
func goverFailureNodeContextText(v FailureNodeContext) string { return v.String() }

func goverReportEntryVisibility(v ReportEntryVisibility) ReportEntryVisibility {
	b, err := v.MarshalJSON()
	if err != nil {
		return v
	}
	var out ReportEntryVisibility
	if out.UnmarshalJSON(b) != nil {
		return v
	}
	return out
}
func goverReportEntryVisibilityText(v ReportEntryVisibility) string { return v.String() }
