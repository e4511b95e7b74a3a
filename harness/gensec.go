package ics

// Code generated by tools/mksections.py; constructors of the components, one field at a time.

// gEvent returns the component with its required properties only.
func gEvent() (s Event) {
	s.DateTimeStamp = gDateTimeStamp()
	s.UID = gUID()
	return
}

const vEventFields = 29

var vEventNames = [...]string{"DateTimeStart", "Class", "Created", "Description", "Geo", "LastModified", "Location", "Organizer", "Priority", "Sequence", "Status", "Summary", "TimeTransparency", "URL", "RecurrenceID", "RecurrenceRule", "DateTimeEnd", "Duration", "Attachment", "Attendee", "Categories", "Comment", "Contact", "ExceptionDateTime", "RequestStatus", "RelatedTo", "Resources", "RecurrenceDateTimes", "Alarm"}

// vEventSet sets the i-th optional field, or adds an element to it.
func vEventSet(s *Event, i int) {
	switch i {
	case 0:
		x := gDateTimeStart()
		s.DateTimeStart = &x
	case 1:
		x := gClass()
		s.Class = &x
	case 2:
		x := gCreated()
		s.Created = &x
	case 3:
		x := gDescription()
		s.Description = &x
	case 4:
		x := gGeo()
		s.Geo = &x
	case 5:
		x := gLastModified()
		s.LastModified = &x
	case 6:
		x := gLocation()
		s.Location = &x
	case 7:
		x := gOrganizer()
		s.Organizer = &x
	case 8:
		x := gPriority()
		s.Priority = &x
	case 9:
		x := gSequence()
		s.Sequence = &x
	case 10:
		x := gStatus()
		s.Status = &x
	case 11:
		x := gSummary()
		s.Summary = &x
	case 12:
		x := gTimeTransparency()
		s.TimeTransparency = &x
	case 13:
		x := gURL()
		s.URL = &x
	case 14:
		x := gRecurrenceID()
		s.RecurrenceID = &x
	case 15:
		x := gRecurrenceRule()
		s.RecurrenceRule = &x
	case 16:
		x := gDateTimeEnd()
		s.DateTimeEnd = &x
	case 17:
		x := gPropDuration()
		s.Duration = &x
	case 18:
		s.Attachment = append(s.Attachment, gAttachment())
	case 19:
		s.Attendee = append(s.Attendee, gAttendee())
	case 20:
		s.Categories = append(s.Categories, gCategories())
	case 21:
		s.Comment = append(s.Comment, gComment())
	case 22:
		s.Contact = append(s.Contact, gContact())
	case 23:
		s.ExceptionDateTime = append(s.ExceptionDateTime, gExceptionDateTime())
	case 24:
		s.RequestStatus = append(s.RequestStatus, gRequestStatus())
	case 25:
		s.RelatedTo = append(s.RelatedTo, gRelatedTo())
	case 26:
		s.Resources = append(s.Resources, gResources())
	case 27:
		s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, gRecurrenceDateTimes())
	case 28:
		s.Alarm = append(s.Alarm, gAlarm())
	}
}

// vEventRepeats reports whether the i-th optional field is a list.
func vEventRepeats(i int) bool {
	switch i {
	case 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28:
		return true
	}
	return false
}

// gTodo returns the component with its required properties only.
func gTodo() (s Todo) {
	s.DateTimeStamp = gDateTimeStamp()
	s.UID = gUID()
	return
}

const vTodoFields = 29

var vTodoNames = [...]string{"Class", "Completed", "Created", "Description", "DateTimeStart", "Geo", "LastModified", "Location", "Organizer", "PercentComplete", "Priority", "RecurrenceID", "Sequence", "Status", "Summary", "URL", "Due", "Duration", "Attachment", "Attendee", "Categories", "Comment", "Contact", "ExceptionDateTime", "RequestStatus", "RelatedTo", "Resources", "RecurrenceDateTimes", "Alarm"}

// vTodoSet sets the i-th optional field, or adds an element to it.
func vTodoSet(s *Todo, i int) {
	switch i {
	case 0:
		x := gClass()
		s.Class = &x
	case 1:
		x := gCompleted()
		s.Completed = &x
	case 2:
		x := gCreated()
		s.Created = &x
	case 3:
		x := gDescription()
		s.Description = &x
	case 4:
		x := gDateTimeStart()
		s.DateTimeStart = &x
	case 5:
		x := gGeo()
		s.Geo = &x
	case 6:
		x := gLastModified()
		s.LastModified = &x
	case 7:
		x := gLocation()
		s.Location = &x
	case 8:
		x := gOrganizer()
		s.Organizer = &x
	case 9:
		x := gPercentComplete()
		s.PercentComplete = &x
	case 10:
		x := gPriority()
		s.Priority = &x
	case 11:
		x := gRecurrenceID()
		s.RecurrenceID = &x
	case 12:
		x := gSequence()
		s.Sequence = &x
	case 13:
		x := gStatus()
		s.Status = &x
	case 14:
		x := gSummary()
		s.Summary = &x
	case 15:
		x := gURL()
		s.URL = &x
	case 16:
		x := gDue()
		s.Due = &x
	case 17:
		x := gPropDuration()
		s.Duration = &x
	case 18:
		s.Attachment = append(s.Attachment, gAttachment())
	case 19:
		s.Attendee = append(s.Attendee, gAttendee())
	case 20:
		s.Categories = append(s.Categories, gCategories())
	case 21:
		s.Comment = append(s.Comment, gComment())
	case 22:
		s.Contact = append(s.Contact, gContact())
	case 23:
		s.ExceptionDateTime = append(s.ExceptionDateTime, gExceptionDateTime())
	case 24:
		s.RequestStatus = append(s.RequestStatus, gRequestStatus())
	case 25:
		s.RelatedTo = append(s.RelatedTo, gRelatedTo())
	case 26:
		s.Resources = append(s.Resources, gResources())
	case 27:
		s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, gRecurrenceDateTimes())
	case 28:
		s.Alarm = append(s.Alarm, gAlarm())
	}
}

// vTodoRepeats reports whether the i-th optional field is a list.
func vTodoRepeats(i int) bool {
	switch i {
	case 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28:
		return true
	}
	return false
}

// gJournal returns the component with its required properties only.
func gJournal() (s Journal) {
	s.DateTimeStamp = gDateTimeStamp()
	s.UID = gUID()
	return
}

const vJournalFields = 22

var vJournalNames = [...]string{"Class", "Created", "DateTimeStart", "LastModified", "Organizer", "RecurrenceID", "Sequence", "Status", "Summary", "URL", "RecurrenceRule", "Attachment", "Attendee", "Categories", "Comment", "Contact", "Description", "ExceptionDateTime", "RequestStatus", "RelatedTo", "Resources", "RecurrenceDateTimes"}

// vJournalSet sets the i-th optional field, or adds an element to it.
func vJournalSet(s *Journal, i int) {
	switch i {
	case 0:
		x := gClass()
		s.Class = &x
	case 1:
		x := gCreated()
		s.Created = &x
	case 2:
		x := gDateTimeStart()
		s.DateTimeStart = &x
	case 3:
		x := gLastModified()
		s.LastModified = &x
	case 4:
		x := gOrganizer()
		s.Organizer = &x
	case 5:
		x := gRecurrenceID()
		s.RecurrenceID = &x
	case 6:
		x := gSequence()
		s.Sequence = &x
	case 7:
		x := gStatus()
		s.Status = &x
	case 8:
		x := gSummary()
		s.Summary = &x
	case 9:
		x := gURL()
		s.URL = &x
	case 10:
		x := gRecurrenceRule()
		s.RecurrenceRule = &x
	case 11:
		s.Attachment = append(s.Attachment, gAttachment())
	case 12:
		s.Attendee = append(s.Attendee, gAttendee())
	case 13:
		s.Categories = append(s.Categories, gCategories())
	case 14:
		s.Comment = append(s.Comment, gComment())
	case 15:
		s.Contact = append(s.Contact, gContact())
	case 16:
		s.Description = append(s.Description, gDescription())
	case 17:
		s.ExceptionDateTime = append(s.ExceptionDateTime, gExceptionDateTime())
	case 18:
		s.RequestStatus = append(s.RequestStatus, gRequestStatus())
	case 19:
		s.RelatedTo = append(s.RelatedTo, gRelatedTo())
	case 20:
		s.Resources = append(s.Resources, gResources())
	case 21:
		s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, gRecurrenceDateTimes())
	}
}

// vJournalRepeats reports whether the i-th optional field is a list.
func vJournalRepeats(i int) bool {
	switch i {
	case 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21:
		return true
	}
	return false
}

// gFreeBusySection returns the component with its required properties only.
func gFreeBusySection() (s FreeBusy) {
	s.DateTimeStamp = gDateTimeStamp()
	s.UID = gUID()
	return
}

const vFreeBusyFields = 9

var vFreeBusyNames = [...]string{"Contact", "DateTimeStart", "DateTimeEnd", "Organizer", "URL", "Attendee", "Comment", "FreeBusy", "RequestStatus"}

// vFreeBusySet sets the i-th optional field, or adds an element to it.
func vFreeBusySet(s *FreeBusy, i int) {
	switch i {
	case 0:
		x := gContact()
		s.Contact = &x
	case 1:
		x := gDateTimeStart()
		s.DateTimeStart = &x
	case 2:
		x := gDateTimeEnd()
		s.DateTimeEnd = &x
	case 3:
		x := gOrganizer()
		s.Organizer = &x
	case 4:
		x := gURL()
		s.URL = &x
	case 5:
		s.Attendee = append(s.Attendee, gAttendee())
	case 6:
		s.Comment = append(s.Comment, gComment())
	case 7:
		s.FreeBusy = append(s.FreeBusy, gFreeBusy())
	case 8:
		s.RequestStatus = append(s.RequestStatus, gRequestStatus())
	}
}

// vFreeBusyRepeats reports whether the i-th optional field is a list.
func vFreeBusyRepeats(i int) bool {
	switch i {
	case 5, 6, 7, 8:
		return true
	}
	return false
}

// gTimezone returns the component with its required properties only.
func gTimezone() (s Timezone) {
	s.TimezoneID = gTimezoneID()
	return
}

const vTimezoneFields = 4

var vTimezoneNames = [...]string{"LastModified", "TimezoneURL", "Standard", "Daylight"}

// vTimezoneSet sets the i-th optional field, or adds an element to it.
func vTimezoneSet(s *Timezone, i int) {
	switch i {
	case 0:
		x := gLastModified()
		s.LastModified = &x
	case 1:
		x := gTimezoneURL()
		s.TimezoneURL = &x
	case 2:
		s.Standard = append(s.Standard, gStandard())
	case 3:
		s.Daylight = append(s.Daylight, gDaylight())
	}
}

// vTimezoneRepeats reports whether the i-th optional field is a list.
func vTimezoneRepeats(i int) bool {
	switch i {
	case 2, 3:
		return true
	}
	return false
}

// gStandard returns the component with its required properties only.
func gStandard() (s Standard) {
	s.DateTimeStart = gDateTimeStart()
	s.TimezoneOffsetTo = gTimezoneOffsetTo()
	s.TimezoneOffsetFrom = gTimezoneOffsetFrom()
	return
}

const vStandardFields = 4

var vStandardNames = [...]string{"RecurrenceRule", "Comment", "RecurrenceDateTimes", "TimezoneName"}

// vStandardSet sets the i-th optional field, or adds an element to it.
func vStandardSet(s *Standard, i int) {
	switch i {
	case 0:
		x := gRecurrenceRule()
		s.RecurrenceRule = &x
	case 1:
		s.Comment = append(s.Comment, gComment())
	case 2:
		s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, gRecurrenceDateTimes())
	case 3:
		s.TimezoneName = append(s.TimezoneName, gTimezoneName())
	}
}

// vStandardRepeats reports whether the i-th optional field is a list.
func vStandardRepeats(i int) bool {
	switch i {
	case 1, 2, 3:
		return true
	}
	return false
}

// gDaylight returns the component with its required properties only.
func gDaylight() (s Daylight) {
	s.DateTimeStart = gDateTimeStart()
	s.TimezoneOffsetTo = gTimezoneOffsetTo()
	s.TimezoneOffsetFrom = gTimezoneOffsetFrom()
	return
}

const vDaylightFields = 4

var vDaylightNames = [...]string{"RecurrenceRule", "Comment", "RecurrenceDateTimes", "TimezoneName"}

// vDaylightSet sets the i-th optional field, or adds an element to it.
func vDaylightSet(s *Daylight, i int) {
	switch i {
	case 0:
		x := gRecurrenceRule()
		s.RecurrenceRule = &x
	case 1:
		s.Comment = append(s.Comment, gComment())
	case 2:
		s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, gRecurrenceDateTimes())
	case 3:
		s.TimezoneName = append(s.TimezoneName, gTimezoneName())
	}
}

// vDaylightRepeats reports whether the i-th optional field is a list.
func vDaylightRepeats(i int) bool {
	switch i {
	case 1, 2, 3:
		return true
	}
	return false
}

// gAlarmAudio returns the component with its required properties only.
func gAlarmAudio() (s AlarmAudio) {
	s.Trigger = gTrigger()
	return
}

const vAlarmAudioFields = 12

var vAlarmAudioNames = [...]string{"Duration", "Repeat", "Attachment", "UID", "AlarmAgent", "AlarmStatus", "LastTriggered", "Acknowledged", "Proximity", "GeoLocation", "RelatedTo", "DefaultAlarm"}

// vAlarmAudioSet sets the i-th optional field, or adds an element to it.
func vAlarmAudioSet(s *AlarmAudio, i int) {
	switch i {
	case 0:
		x := gPropDuration()
		s.Duration = &x
	case 1:
		x := gRepeat()
		s.Repeat = &x
	case 2:
		s.Attachment = append(s.Attachment, gAttachment())
	case 3:
		x := gUID()
		s.UID = &x
	case 4:
		s.AlarmAgent = append(s.AlarmAgent, gAlarmAgent())
	case 5:
		x := gAlarmStatus()
		s.AlarmStatus = &x
	case 6:
		s.LastTriggered = append(s.LastTriggered, gLastTriggered())
	case 7:
		x := gAcknowledged()
		s.Acknowledged = &x
	case 8:
		x := gProximity()
		s.Proximity = &x
	case 9:
		s.GeoLocation = append(s.GeoLocation, gGeoLocation())
	case 10:
		x := gRelatedTo()
		s.RelatedTo = &x
	case 11:
		x := gDefaultAlarm()
		s.DefaultAlarm = &x
	}
}

// vAlarmAudioRepeats reports whether the i-th optional field is a list.
func vAlarmAudioRepeats(i int) bool {
	switch i {
	case 2, 4, 6, 9:
		return true
	}
	return false
}

// gAlarmDisplay returns the component with its required properties only.
func gAlarmDisplay() (s AlarmDisplay) {
	s.Description = gDescription()
	s.Trigger = gTrigger()
	return
}

const vAlarmDisplayFields = 11

var vAlarmDisplayNames = [...]string{"Duration", "Repeat", "UID", "AlarmAgent", "AlarmStatus", "LastTriggered", "Acknowledged", "Proximity", "GeoLocation", "RelatedTo", "DefaultAlarm"}

// vAlarmDisplaySet sets the i-th optional field, or adds an element to it.
func vAlarmDisplaySet(s *AlarmDisplay, i int) {
	switch i {
	case 0:
		x := gPropDuration()
		s.Duration = &x
	case 1:
		x := gRepeat()
		s.Repeat = &x
	case 2:
		x := gUID()
		s.UID = &x
	case 3:
		s.AlarmAgent = append(s.AlarmAgent, gAlarmAgent())
	case 4:
		x := gAlarmStatus()
		s.AlarmStatus = &x
	case 5:
		s.LastTriggered = append(s.LastTriggered, gLastTriggered())
	case 6:
		x := gAcknowledged()
		s.Acknowledged = &x
	case 7:
		x := gProximity()
		s.Proximity = &x
	case 8:
		s.GeoLocation = append(s.GeoLocation, gGeoLocation())
	case 9:
		x := gRelatedTo()
		s.RelatedTo = &x
	case 10:
		x := gDefaultAlarm()
		s.DefaultAlarm = &x
	}
}

// vAlarmDisplayRepeats reports whether the i-th optional field is a list.
func vAlarmDisplayRepeats(i int) bool {
	switch i {
	case 3, 5, 8:
		return true
	}
	return false
}

// gAlarmEmail returns the component with its required properties only.
func gAlarmEmail() (s AlarmEmail) {
	s.Description = gDescription()
	s.Trigger = gTrigger()
	s.Summary = gSummary()
	return
}

const vAlarmEmailFields = 12

var vAlarmEmailNames = [...]string{"Attendee", "Duration", "Repeat", "UID", "AlarmAgent", "AlarmStatus", "LastTriggered", "Acknowledged", "Proximity", "GeoLocation", "RelatedTo", "DefaultAlarm"}

// vAlarmEmailSet sets the i-th optional field, or adds an element to it.
func vAlarmEmailSet(s *AlarmEmail, i int) {
	switch i {
	case 0:
		x := gAttendee()
		s.Attendee = &x
	case 1:
		x := gPropDuration()
		s.Duration = &x
	case 2:
		x := gRepeat()
		s.Repeat = &x
	case 3:
		x := gUID()
		s.UID = &x
	case 4:
		s.AlarmAgent = append(s.AlarmAgent, gAlarmAgent())
	case 5:
		x := gAlarmStatus()
		s.AlarmStatus = &x
	case 6:
		s.LastTriggered = append(s.LastTriggered, gLastTriggered())
	case 7:
		x := gAcknowledged()
		s.Acknowledged = &x
	case 8:
		x := gProximity()
		s.Proximity = &x
	case 9:
		s.GeoLocation = append(s.GeoLocation, gGeoLocation())
	case 10:
		x := gRelatedTo()
		s.RelatedTo = &x
	case 11:
		x := gDefaultAlarm()
		s.DefaultAlarm = &x
	}
}

// vAlarmEmailRepeats reports whether the i-th optional field is a list.
func vAlarmEmailRepeats(i int) bool {
	switch i {
	case 4, 6, 9:
		return true
	}
	return false
}

// gAlarmURI returns the component with its required properties only.
func gAlarmURI() (s AlarmURI) {
	s.URI = gPropURI()
	return
}

const vAlarmURIFields = 11

var vAlarmURINames = [...]string{"Duration", "Repeat", "UID", "AlarmAgent", "AlarmStatus", "LastTriggered", "Acknowledged", "Proximity", "GeoLocation", "RelatedTo", "DefaultAlarm"}

// vAlarmURISet sets the i-th optional field, or adds an element to it.
func vAlarmURISet(s *AlarmURI, i int) {
	switch i {
	case 0:
		x := gPropDuration()
		s.Duration = &x
	case 1:
		x := gRepeat()
		s.Repeat = &x
	case 2:
		x := gUID()
		s.UID = &x
	case 3:
		s.AlarmAgent = append(s.AlarmAgent, gAlarmAgent())
	case 4:
		x := gAlarmStatus()
		s.AlarmStatus = &x
	case 5:
		s.LastTriggered = append(s.LastTriggered, gLastTriggered())
	case 6:
		x := gAcknowledged()
		s.Acknowledged = &x
	case 7:
		x := gProximity()
		s.Proximity = &x
	case 8:
		s.GeoLocation = append(s.GeoLocation, gGeoLocation())
	case 9:
		x := gRelatedTo()
		s.RelatedTo = &x
	case 10:
		x := gDefaultAlarm()
		s.DefaultAlarm = &x
	}
}

// vAlarmURIRepeats reports whether the i-th optional field is a list.
func vAlarmURIRepeats(i int) bool {
	switch i {
	case 3, 5, 8:
		return true
	}
	return false
}

func gAlarm() Alarm {
	switch vWay(5) {
	case 1:
		a := gAlarmDisplay()
		return Alarm{&a}
	case 2:
		a := gAlarmEmail()
		return Alarm{&a}
	case 3:
		a := gAlarmURI()
		return Alarm{&a}
	case 4:
		return Alarm{&AlarmNone{}}
	}
	a := gAlarmAudio()
	return Alarm{&a}
}
