From 5bb5f2374897ae2aa950b9272220fa935b820d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 01/38] fix: encode and decode expiryDate and parentIdTag of
 csreq.IdTagInfo

Encoding a local list entry without an expiry date panicked, and both
optional fields were dropped when decoding.
---
 messages/v1x/csreq/json_encode.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index 924e656..4b360f1 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -823,16 +823,15 @@ func (m *IdTagInfo) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "expiryDate" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"expiryDate\": ")
-	if tmp, err := json.Marshal(m.ExpiryDate.Format(time.RFC3339)); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ExpiryDate != nil {
+		buf.WriteString("\"expiryDate\": ")
+		if tmp, err := json.Marshal(m.ExpiryDate.Format(time.RFC3339)); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "parentIdTag" field
 	if comma {
 		buf.WriteString(",")
@@ -872,6 +871,14 @@ func (m *IdTagInfo) UnmarshalJSON(b []byte) error {
 	// parse all the defined properties
 	for k, v := range jsonMap {
 		switch k {
+		case "expiryDate":
+			if err := json.Unmarshal([]byte(v), &m.ExpiryDate); err != nil {
+				return err
+			}
+		case "parentIdTag":
+			if err := json.Unmarshal([]byte(v), &m.ParentIdTag); err != nil {
+				return err
+			}
 		case "status":
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
-- 
2.43.0


From a2eb1c60b624833a9aa48cc37fcd9c4491daa23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 02/38] fix: omit empty optional fields from OCPP-J payloads

Optional properties that were left empty were written as null, zero or an
empty enumeration value, which the OCPP 1.6 schemas forbid.
---
 messages/v1x/cpreq/json_encode.go  | 460 +++++++++++++++------------
 messages/v1x/cpresp/json_encode.go |  54 ++--
 messages/v1x/csreq/json_encode.go  | 494 ++++++++++++++++-------------
 messages/v1x/csresp/json_encode.go | 206 ++++++------
 4 files changed, 671 insertions(+), 543 deletions(-)

diff --git a/messages/v1x/cpreq/json_encode.go b/messages/v1x/cpreq/json_encode.go
index 38bd439..e57fd98 100644
--- a/messages/v1x/cpreq/json_encode.go
+++ b/messages/v1x/cpreq/json_encode.go
@@ -61,16 +61,18 @@ func (m *BootNotification) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "chargeBoxSerialNumber" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"chargeBoxSerialNumber\": ")
-	if tmp, err := json.Marshal(m.ChargeBoxSerialNumber); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ChargeBoxSerialNumber != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"chargeBoxSerialNumber\": ")
+		if tmp, err := json.Marshal(m.ChargeBoxSerialNumber); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "ChargePointModel" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "chargePointModel" field
@@ -85,16 +87,18 @@ func (m *BootNotification) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "chargePointSerialNumber" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"chargePointSerialNumber\": ")
-	if tmp, err := json.Marshal(m.ChargePointSerialNumber); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ChargePointSerialNumber != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"chargePointSerialNumber\": ")
+		if tmp, err := json.Marshal(m.ChargePointSerialNumber); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "ChargePointVendor" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "chargePointVendor" field
@@ -109,60 +113,70 @@ func (m *BootNotification) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "firmwareVersion" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"firmwareVersion\": ")
-	if tmp, err := json.Marshal(m.FirmwareVersion); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.FirmwareVersion != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"firmwareVersion\": ")
+		if tmp, err := json.Marshal(m.FirmwareVersion); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "iccid" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"iccid\": ")
-	if tmp, err := json.Marshal(m.Iccid); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Iccid != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"iccid\": ")
+		if tmp, err := json.Marshal(m.Iccid); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "imsi" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"imsi\": ")
-	if tmp, err := json.Marshal(m.Imsi); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Imsi != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"imsi\": ")
+		if tmp, err := json.Marshal(m.Imsi); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "meterSerialNumber" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"meterSerialNumber\": ")
-	if tmp, err := json.Marshal(m.MeterSerialNumber); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.MeterSerialNumber != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"meterSerialNumber\": ")
+		if tmp, err := json.Marshal(m.MeterSerialNumber); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "meterType" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"meterType\": ")
-	if tmp, err := json.Marshal(m.MeterType); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.MeterType != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"meterType\": ")
+		if tmp, err := json.Marshal(m.MeterType); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
@@ -237,27 +251,31 @@ func (m *DataTransfer) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "data" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"data\": ")
-	if tmp, err := json.Marshal(m.Data); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Data != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"data\": ")
+		if tmp, err := json.Marshal(m.Data); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "messageId" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"messageId\": ")
-	if tmp, err := json.Marshal(m.MessageId); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.MessageId != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"messageId\": ")
+		if tmp, err := json.Marshal(m.MessageId); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "VendorId" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "vendorId" field
@@ -530,16 +548,18 @@ func (m *MeterValues) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "transactionId" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"transactionId\": ")
-	if tmp, err := json.Marshal(m.TransactionId); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.TransactionId != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"transactionId\": ")
+		if tmp, err := json.Marshal(m.TransactionId); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
@@ -590,71 +610,83 @@ func (m *SampledValue) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "context" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"context\": ")
-	if tmp, err := json.Marshal(m.Context); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Context != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"context\": ")
+		if tmp, err := json.Marshal(m.Context); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "format" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"format\": ")
-	if tmp, err := json.Marshal(m.Format); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Format != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"format\": ")
+		if tmp, err := json.Marshal(m.Format); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "location" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"location\": ")
-	if tmp, err := json.Marshal(m.Location); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Location != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"location\": ")
+		if tmp, err := json.Marshal(m.Location); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "measurand" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"measurand\": ")
-	if tmp, err := json.Marshal(m.Measurand); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Measurand != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"measurand\": ")
+		if tmp, err := json.Marshal(m.Measurand); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "phase" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"phase\": ")
-	if tmp, err := json.Marshal(m.Phase); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Phase != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"phase\": ")
+		if tmp, err := json.Marshal(m.Phase); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "unit" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"unit\": ")
-	if tmp, err := json.Marshal(m.Unit); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Unit != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"unit\": ")
+		if tmp, err := json.Marshal(m.Unit); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "Value" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "value" field
@@ -765,16 +797,18 @@ func (m *StartTransaction) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "reservationId" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"reservationId\": ")
-	if tmp, err := json.Marshal(m.ReservationId); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ReservationId != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"reservationId\": ")
+		if tmp, err := json.Marshal(m.ReservationId); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "Timestamp" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "timestamp" field
@@ -884,16 +918,18 @@ func (m *StatusNotification) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "info" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"info\": ")
-	if tmp, err := json.Marshal(m.Info); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Info != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"info\": ")
+		if tmp, err := json.Marshal(m.Info); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "Status" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "status" field
@@ -918,27 +954,31 @@ func (m *StatusNotification) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "vendorErrorCode" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"vendorErrorCode\": ")
-	if tmp, err := json.Marshal(m.VendorErrorCode); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.VendorErrorCode != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"vendorErrorCode\": ")
+		if tmp, err := json.Marshal(m.VendorErrorCode); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "vendorId" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"vendorId\": ")
-	if tmp, err := json.Marshal(m.VendorId); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.VendorId != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"vendorId\": ")
+		if tmp, err := json.Marshal(m.VendorId); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
@@ -1011,16 +1051,18 @@ func (m *StopTransaction) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "idTag" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"idTag\": ")
-	if tmp, err := json.Marshal(m.IdTag); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.IdTag != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"idTag\": ")
+		if tmp, err := json.Marshal(m.IdTag); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "MeterStop" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "meterStop" field
@@ -1035,16 +1077,18 @@ func (m *StopTransaction) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "reason" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"reason\": ")
-	if tmp, err := json.Marshal(m.Reason); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Reason != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"reason\": ")
+		if tmp, err := json.Marshal(m.Reason); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "Timestamp" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "timestamp" field
@@ -1059,16 +1103,18 @@ func (m *StopTransaction) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "transactionData" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"transactionData\": ")
-	if tmp, err := json.Marshal(m.TransactionData); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if len(m.TransactionData) > 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"transactionData\": ")
+		if tmp, err := json.Marshal(m.TransactionData); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "TransactionId" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "transactionId" field
diff --git a/messages/v1x/cpresp/json_encode.go b/messages/v1x/cpresp/json_encode.go
index eb776b1..346e708 100644
--- a/messages/v1x/cpresp/json_encode.go
+++ b/messages/v1x/cpresp/json_encode.go
@@ -157,16 +157,18 @@ func (m *DataTransfer) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "data" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"data\": ")
-	if tmp, err := json.Marshal(m.Data); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Data != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"data\": ")
+		if tmp, err := json.Marshal(m.Data); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "Status" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "status" field
@@ -323,16 +325,18 @@ func (m *IdTagInfo) MarshalJSON() ([]byte, error) {
 		}
 		buf.WriteString(",")
 	}
-	buf.WriteString("\"parentIdTag\": ")
-	if tmp, err := json.Marshal(m.ParentIdTag); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ParentIdTag != "" {
+		buf.WriteString("\"parentIdTag\": ")
+		if tmp, err := json.Marshal(m.ParentIdTag); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		buf.WriteString(",")
 	}
 	// "Status" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "status" field
-	buf.WriteString(",")
 	buf.WriteString("\"status\": ")
 	if tmp, err := json.Marshal(m.Status); err != nil {
 		return nil, err
@@ -501,16 +505,18 @@ func (m *StopTransaction) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "idTagInfo" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"idTagInfo\": ")
-	if tmp, err := json.Marshal(m.IdTagInfo); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.IdTagInfo != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"idTagInfo\": ")
+		if tmp, err := json.Marshal(m.IdTagInfo); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index 4b360f1..246eb85 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -257,16 +257,18 @@ func (m *ChargingProfile) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "recurrencyKind" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"recurrencyKind\": ")
-	if tmp, err := json.Marshal(m.RecurrencyKind); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.RecurrencyKind != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"recurrencyKind\": ")
+		if tmp, err := json.Marshal(m.RecurrencyKind); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "StackLevel" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "stackLevel" field
@@ -281,14 +283,16 @@ func (m *ChargingProfile) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "transactionId" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"transactionId\": ")
-	if tmp, err := json.Marshal(m.TransactionId); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.TransactionId != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"transactionId\": ")
+		if tmp, err := json.Marshal(m.TransactionId); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
 	}
 	if m.ValidFrom != nil {
 		buf.WriteString(",")
@@ -421,49 +425,57 @@ func (m *ClearChargingProfile) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "chargingProfilePurpose" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"chargingProfilePurpose\": ")
-	if tmp, err := json.Marshal(m.ChargingProfilePurpose); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ChargingProfilePurpose != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"chargingProfilePurpose\": ")
+		if tmp, err := json.Marshal(m.ChargingProfilePurpose); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "connectorId" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"connectorId\": ")
-	if tmp, err := json.Marshal(m.ConnectorId); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ConnectorId != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"connectorId\": ")
+		if tmp, err := json.Marshal(m.ConnectorId); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "id" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"id\": ")
-	if tmp, err := json.Marshal(m.Id); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Id != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"id\": ")
+		if tmp, err := json.Marshal(m.Id); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "stackLevel" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"stackLevel\": ")
-	if tmp, err := json.Marshal(m.StackLevel); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.StackLevel != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"stackLevel\": ")
+		if tmp, err := json.Marshal(m.StackLevel); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
@@ -506,27 +518,31 @@ func (m *DataTransfer) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "data" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"data\": ")
-	if tmp, err := json.Marshal(m.Data); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Data != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"data\": ")
+		if tmp, err := json.Marshal(m.Data); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "messageId" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"messageId\": ")
-	if tmp, err := json.Marshal(m.MessageId); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.MessageId != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"messageId\": ")
+		if tmp, err := json.Marshal(m.MessageId); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "VendorId" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "vendorId" field
@@ -584,16 +600,18 @@ func (m *GetCompositeSchedule) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "chargingRateUnit" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"chargingRateUnit\": ")
-	if tmp, err := json.Marshal(m.ChargingRateUnit); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ChargingRateUnit != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"chargingRateUnit\": ")
+		if tmp, err := json.Marshal(m.ChargingRateUnit); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "ConnectorId" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "connectorId" field
@@ -710,25 +728,29 @@ func (m *GetDiagnostics) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "retries" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"retries\": ")
-	if tmp, err := json.Marshal(m.Retries); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Retries != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"retries\": ")
+		if tmp, err := json.Marshal(m.Retries); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "retryInterval" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"retryInterval\": ")
-	if tmp, err := json.Marshal(m.RetryInterval); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.RetryInterval != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"retryInterval\": ")
+		if tmp, err := json.Marshal(m.RetryInterval); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
 	}
 	if m.StartTime != nil {
 		buf.WriteString(",")
@@ -833,16 +855,18 @@ func (m *IdTagInfo) MarshalJSON() ([]byte, error) {
 		comma = true
 	}
 	// Marshal the "parentIdTag" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"parentIdTag\": ")
-	if tmp, err := json.Marshal(m.ParentIdTag); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ParentIdTag != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"parentIdTag\": ")
+		if tmp, err := json.Marshal(m.ParentIdTag); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "Status" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "status" field
@@ -911,16 +935,18 @@ func (m *LocalAuthorizationListItems) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "idTagInfo" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"idTagInfo\": ")
-	if tmp, err := json.Marshal(m.IdTagInfo); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.IdTagInfo != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"idTagInfo\": ")
+		if tmp, err := json.Marshal(m.IdTagInfo); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
@@ -998,16 +1024,18 @@ func (m *ReserveNow) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "parentIdTag" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"parentIdTag\": ")
-	if tmp, err := json.Marshal(m.ParentIdTag); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ParentIdTag != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"parentIdTag\": ")
+		if tmp, err := json.Marshal(m.ParentIdTag); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "ReservationId" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "reservationId" field
@@ -1152,16 +1180,18 @@ func (m *SendLocalList) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "localAuthorizationList" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"localAuthorizationList\": ")
-	if tmp, err := json.Marshal(m.LocalAuthorizationList); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if len(m.LocalAuthorizationList) > 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"localAuthorizationList\": ")
+		if tmp, err := json.Marshal(m.LocalAuthorizationList); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "UpdateType" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "updateType" field
@@ -1225,16 +1255,18 @@ func (m *TriggerMessage) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "connectorId" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"connectorId\": ")
-	if tmp, err := json.Marshal(m.ConnectorId); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ConnectorId != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"connectorId\": ")
+		if tmp, err := json.Marshal(m.ConnectorId); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "RequestedMessage" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "requestedMessage" field
@@ -1314,25 +1346,29 @@ func (m *ChargingSchedule) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "duration" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"duration\": ")
-	if tmp, err := json.Marshal(m.Duration); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Duration != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"duration\": ")
+		if tmp, err := json.Marshal(m.Duration); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "minChargingRate" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"minChargingRate\": ")
-	if tmp, err := json.Marshal(m.MinChargingRate); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.MinChargingRate != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"minChargingRate\": ")
+		if tmp, err := json.Marshal(m.MinChargingRate); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
 	}
 	if m.StartSchedule != nil {
 		buf.WriteString(",")
@@ -1411,16 +1447,18 @@ func (m *ChargingSchedulePeriodItems) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "numberPhases" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"numberPhases\": ")
-	if tmp, err := json.Marshal(m.NumberPhases); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.NumberPhases != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"numberPhases\": ")
+		if tmp, err := json.Marshal(m.NumberPhases); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "StartPeriod" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "startPeriod" field
@@ -1536,16 +1574,18 @@ func (m *CsChargingProfiles) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "recurrencyKind" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"recurrencyKind\": ")
-	if tmp, err := json.Marshal(m.RecurrencyKind); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.RecurrencyKind != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"recurrencyKind\": ")
+		if tmp, err := json.Marshal(m.RecurrencyKind); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "StackLevel" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "stackLevel" field
@@ -1560,38 +1600,44 @@ func (m *CsChargingProfiles) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "transactionId" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"transactionId\": ")
-	if tmp, err := json.Marshal(m.TransactionId); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.TransactionId != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"transactionId\": ")
+		if tmp, err := json.Marshal(m.TransactionId); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "validFrom" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"validFrom\": ")
-	if tmp, err := json.Marshal(m.ValidFrom.Format(time.RFC3339)); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if !m.ValidFrom.IsZero() {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"validFrom\": ")
+		if tmp, err := json.Marshal(m.ValidFrom.Format(time.RFC3339)); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "validTo" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"validTo\": ")
-	if tmp, err := json.Marshal(m.ValidTo.Format(time.RFC3339)); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if !m.ValidTo.IsZero() {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"validTo\": ")
+		if tmp, err := json.Marshal(m.ValidTo.Format(time.RFC3339)); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
@@ -1816,16 +1862,18 @@ func (m *UpdateFirmware) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "retries" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"retries\": ")
-	if tmp, err := json.Marshal(m.Retries); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Retries != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"retries\": ")
+		if tmp, err := json.Marshal(m.Retries); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "RetrieveDate" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "retrieveDate" field
@@ -1840,16 +1888,18 @@ func (m *UpdateFirmware) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "retryInterval" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"retryInterval\": ")
-	if tmp, err := json.Marshal(m.RetryInterval); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.RetryInterval != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"retryInterval\": ")
+		if tmp, err := json.Marshal(m.RetryInterval); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
diff --git a/messages/v1x/csresp/json_encode.go b/messages/v1x/csresp/json_encode.go
index 36bc65b..8dc5821 100644
--- a/messages/v1x/csresp/json_encode.go
+++ b/messages/v1x/csresp/json_encode.go
@@ -183,25 +183,29 @@ func (m *ChargingSchedule) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "duration" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"duration\": ")
-	if tmp, err := json.Marshal(m.Duration); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Duration != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"duration\": ")
+		if tmp, err := json.Marshal(m.Duration); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "minChargingRate" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"minChargingRate\": ")
-	if tmp, err := json.Marshal(m.MinChargingRate); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.MinChargingRate != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"minChargingRate\": ")
+		if tmp, err := json.Marshal(m.MinChargingRate); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
 	}
 
 	if m.StartSchedule != nil {
@@ -282,16 +286,18 @@ func (m *ChargingSchedulePeriodItems) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "numberPhases" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"numberPhases\": ")
-	if tmp, err := json.Marshal(m.NumberPhases); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.NumberPhases != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"numberPhases\": ")
+		if tmp, err := json.Marshal(m.NumberPhases); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "StartPeriod" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "startPeriod" field
@@ -475,16 +481,18 @@ func (m *ConfigurationKeyItems) MarshalJSON() ([]byte, error) {
 	}
 	comma = true
 	// Marshal the "value" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"value\": ")
-	if tmp, err := json.Marshal(m.Value); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Value != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"value\": ")
+		if tmp, err := json.Marshal(m.Value); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
@@ -533,16 +541,18 @@ func (m *DataTransfer) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "data" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"data\": ")
-	if tmp, err := json.Marshal(m.Data); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.Data != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"data\": ")
+		if tmp, err := json.Marshal(m.Data); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// "Status" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "status" field
@@ -596,40 +606,50 @@ func (m *GetCompositeSchedule) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "chargingSchedule" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"chargingSchedule\": ")
-	if tmp, err := json.Marshal(m.ChargingSchedule); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ChargingSchedule != nil {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"chargingSchedule\": ")
+		if tmp, err := json.Marshal(m.ChargingSchedule); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "connectorId" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"connectorId\": ")
-	if tmp, err := json.Marshal(m.ConnectorId); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.ConnectorId != 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"connectorId\": ")
+		if tmp, err := json.Marshal(m.ConnectorId); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
 	// Marshal the "scheduleStart" field
 	if m.ScheduleStart != nil {
-		buf.WriteString(",")
+		if comma {
+			buf.WriteString(",")
+		}
 		buf.WriteString("\"scheduleStart\": ")
 		if tmp, err := json.Marshal(m.ScheduleStart.Format(time.RFC3339)); err != nil {
 			return nil, err
 		} else {
 			buf.Write(tmp)
 		}
+		comma = true
 	}
 	// "Status" field is required
 	// only required object types supported for marshal checking (for now)
 	// Marshal the "status" field
-	buf.WriteString(",")
+	if comma {
+		buf.WriteString(",")
+	}
 	buf.WriteString("\"status\": ")
 	if tmp, err := json.Marshal(m.Status); err != nil {
 		return nil, err
@@ -684,27 +704,31 @@ func (m *GetConfiguration) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "configurationKey" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"configurationKey\": ")
-	if tmp, err := json.Marshal(m.ConfigurationKey); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if len(m.ConfigurationKey) > 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"configurationKey\": ")
+		if tmp, err := json.Marshal(m.ConfigurationKey); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 	// Marshal the "unknownKey" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"unknownKey\": ")
-	if tmp, err := json.Marshal(m.UnknownKey); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if len(m.UnknownKey) > 0 {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"unknownKey\": ")
+		if tmp, err := json.Marshal(m.UnknownKey); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
@@ -739,16 +763,18 @@ func (m *GetDiagnostics) MarshalJSON() ([]byte, error) {
 	buf.WriteString("{")
 	comma := false
 	// Marshal the "fileName" field
-	if comma {
-		buf.WriteString(",")
-	}
-	buf.WriteString("\"fileName\": ")
-	if tmp, err := json.Marshal(m.FileName); err != nil {
-		return nil, err
-	} else {
-		buf.Write(tmp)
+	if m.FileName != "" {
+		if comma {
+			buf.WriteString(",")
+		}
+		buf.WriteString("\"fileName\": ")
+		if tmp, err := json.Marshal(m.FileName); err != nil {
+			return nil, err
+		} else {
+			buf.Write(tmp)
+		}
+		comma = true
 	}
-	comma = true
 
 	buf.WriteString("}")
 	rv := buf.Bytes()
-- 
2.43.0


From c3e7e3df98aeb4566c7e8964220d2ba63bd48842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 03/38] fix: decode the result of any sent request,
 DataTransfer included

The response type was looked up by action name, which yields nil for
DataTransfer, so that a result crashed the process.
---
 ws/conn.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index b85bc00..5c872a7 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -30,7 +30,7 @@ type Conn struct {
 	cancelCtx context.CancelFunc
 	*websocket.Conn
 	sendMux      sync.Mutex
-	sentMessages map[MessageID]*CallMessage
+	sentMessages map[MessageID]messages.Request
 	requests     chan struct {
 		messages.Request
 		MessageID
@@ -42,7 +42,7 @@ func newConn(socket *websocket.Conn) *Conn {
 	ctx, cancel := context.WithCancel(context.Background())
 	return &Conn{
 		Conn:         socket,
-		sentMessages: make(map[MessageID]*CallMessage, 0),
+		sentMessages: make(map[MessageID]messages.Request, 0),
 		requests: make(chan struct {
 			messages.Request
 			MessageID
@@ -241,14 +241,11 @@ func (c *Conn) callToRequest(call *CallMessage) (messages.Request, ErrorCode) {
 
 func (c *Conn) callResultToResponse(result *CallResultMessage) (messages.Response, ErrorCode) {
 	id := result.ID()
-	call, ok := c.sentMessages[id]
+	request, ok := c.sentMessages[id]
 	if !ok {
 		return nil, GenericError
 	}
-	if call == nil {
-		return nil, NotSupported
-	}
-	resp := req.FromActionName(string(call.Action)).GetResponse()
+	resp := request.GetResponse()
 	originalPayload, err := json.Marshal(result.Payload)
 	if err != nil {
 		return nil, GenericError
@@ -292,7 +289,7 @@ func (c *Conn) SendRequest(request messages.Request) (messages.Response, error)
 	if err != nil {
 		return nil, err
 	}
-	c.sentMessages[id] = msg
+	c.sentMessages[id] = request
 	c.responsesOf[id] = make(chan CallResponse)
 	err = c.sendMessage(msg)
 	if err != nil {
-- 
2.43.0


From a677a9b30e29ba0673baafb5101a01671d07e246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 04/38] fix: treat a null required property of an OCPP-J
 payload as missing

---
 messages/v1x/cpreq/json_encode.go  | 46 +++++++++---------
 messages/v1x/cpresp/json_encode.go | 18 +++----
 messages/v1x/csreq/json_encode.go  | 76 +++++++++++++++---------------
 messages/v1x/csresp/json_encode.go | 44 ++++++++---------
 4 files changed, 92 insertions(+), 92 deletions(-)

diff --git a/messages/v1x/cpreq/json_encode.go b/messages/v1x/cpreq/json_encode.go
index e57fd98..581bf36 100644
--- a/messages/v1x/cpreq/json_encode.go
+++ b/messages/v1x/cpreq/json_encode.go
@@ -44,7 +44,7 @@ func (m *Authorize) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.IdTag); err != nil {
 				return err
 			}
-			idTagReceived = true
+			idTagReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -201,7 +201,7 @@ func (m *BootNotification) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ChargePointModel); err != nil {
 				return err
 			}
-			chargePointModelReceived = true
+			chargePointModelReceived = string(v) != "null"
 		case "chargePointSerialNumber":
 			if err := json.Unmarshal([]byte(v), &m.ChargePointSerialNumber); err != nil {
 				return err
@@ -210,7 +210,7 @@ func (m *BootNotification) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ChargePointVendor); err != nil {
 				return err
 			}
-			chargePointVendorReceived = true
+			chargePointVendorReceived = string(v) != "null"
 		case "firmwareVersion":
 			if err := json.Unmarshal([]byte(v), &m.FirmwareVersion); err != nil {
 				return err
@@ -316,7 +316,7 @@ func (m *DataTransfer) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.VendorId); err != nil {
 				return err
 			}
-			vendorIdReceived = true
+			vendorIdReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -364,7 +364,7 @@ func (m *DiagnosticsStatusNotification) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -412,7 +412,7 @@ func (m *FirmwareStatusNotification) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -498,12 +498,12 @@ func (m *MeterValueItems) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.SampledValues); err != nil {
 				return err
 			}
-			sampledValueReceived = true
+			sampledValueReceived = string(v) != "null"
 		case "timestamp":
 			if err := json.Unmarshal([]byte(v), &m.Timestamp); err != nil {
 				return err
 			}
-			timestampReceived = true
+			timestampReceived = string(v) != "null"
 		}
 	}
 	// check if sampledValue (a required property) was received
@@ -580,12 +580,12 @@ func (m *MeterValues) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
 				return err
 			}
-			connectorIdReceived = true
+			connectorIdReceived = string(v) != "null"
 		case "meterValue":
 			if err := json.Unmarshal([]byte(v), &m.MeterValue); err != nil {
 				return err
 			}
-			meterValueReceived = true
+			meterValueReceived = string(v) != "null"
 		case "transactionId":
 			if err := json.Unmarshal([]byte(v), &m.TransactionId); err != nil {
 				return err
@@ -743,7 +743,7 @@ func (m *SampledValue) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Value); err != nil {
 				return err
 			}
-			valueReceived = true
+			valueReceived = string(v) != "null"
 		}
 	}
 	// check if value (a required property) was received
@@ -844,17 +844,17 @@ func (m *StartTransaction) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
 				return err
 			}
-			connectorIdReceived = true
+			connectorIdReceived = string(v) != "null"
 		case "idTag":
 			if err := json.Unmarshal([]byte(v), &m.IdTag); err != nil {
 				return err
 			}
-			idTagReceived = true
+			idTagReceived = string(v) != "null"
 		case "meterStart":
 			if err := json.Unmarshal([]byte(v), &m.MeterStart); err != nil {
 				return err
 			}
-			meterStartReceived = true
+			meterStartReceived = string(v) != "null"
 		case "reservationId":
 			if err := json.Unmarshal([]byte(v), &m.ReservationId); err != nil {
 				return err
@@ -863,7 +863,7 @@ func (m *StartTransaction) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Timestamp); err != nil {
 				return err
 			}
-			timestampReceived = true
+			timestampReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1000,12 +1000,12 @@ func (m *StatusNotification) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
 				return err
 			}
-			connectorIdReceived = true
+			connectorIdReceived = string(v) != "null"
 		case "errorCode":
 			if err := json.Unmarshal([]byte(v), &m.ErrorCode); err != nil {
 				return err
 			}
-			errorCodeReceived = true
+			errorCodeReceived = string(v) != "null"
 		case "info":
 			if err := json.Unmarshal([]byte(v), &m.Info); err != nil {
 				return err
@@ -1014,7 +1014,7 @@ func (m *StatusNotification) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		case "timestamp":
 			if err := json.Unmarshal([]byte(v), &m.Timestamp); err != nil {
 				return err
@@ -1153,7 +1153,7 @@ func (m *StopTransaction) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.MeterStop); err != nil {
 				return err
 			}
-			meterStopReceived = true
+			meterStopReceived = string(v) != "null"
 		case "reason":
 			if err := json.Unmarshal([]byte(v), &m.Reason); err != nil {
 				return err
@@ -1162,7 +1162,7 @@ func (m *StopTransaction) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Timestamp); err != nil {
 				return err
 			}
-			timestampReceived = true
+			timestampReceived = string(v) != "null"
 		case "transactionData":
 			if err := json.Unmarshal([]byte(v), &m.TransactionData); err != nil {
 				return err
@@ -1171,7 +1171,7 @@ func (m *StopTransaction) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.TransactionId); err != nil {
 				return err
 			}
-			transactionIdReceived = true
+			transactionIdReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1241,12 +1241,12 @@ func (m *TransactionDataItems) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.SampledValues); err != nil {
 				return err
 			}
-			sampledValueReceived = true
+			sampledValueReceived = string(v) != "null"
 		case "timestamp":
 			if err := json.Unmarshal([]byte(v), &m.Timestamp); err != nil {
 				return err
 			}
-			timestampReceived = true
+			timestampReceived = string(v) != "null"
 		}
 	}
 	// check if sampledValue (a required property) was received
diff --git a/messages/v1x/cpresp/json_encode.go b/messages/v1x/cpresp/json_encode.go
index 346e708..3f34e3d 100644
--- a/messages/v1x/cpresp/json_encode.go
+++ b/messages/v1x/cpresp/json_encode.go
@@ -46,7 +46,7 @@ func (m *Authorize) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.IdTagInfo); err != nil {
 				return err
 			}
-			idTagInfoReceived = true
+			idTagInfoReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -122,17 +122,17 @@ func (m *BootNotification) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.CurrentTime); err != nil {
 				return err
 			}
-			currentTimeReceived = true
+			currentTimeReceived = string(v) != "null"
 		case "interval":
 			if err := json.Unmarshal([]byte(v), &m.Interval); err != nil {
 				return err
 			}
-			intervalReceived = true
+			intervalReceived = string(v) != "null"
 		case "status":
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -205,7 +205,7 @@ func (m *DataTransfer) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -301,7 +301,7 @@ func (m *Heartbeat) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.CurrentTime); err != nil {
 				return err
 			}
-			currentTimeReceived = true
+			currentTimeReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -369,7 +369,7 @@ func (m *IdTagInfo) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		}
 	}
 	// check if status (a required property) was received
@@ -455,12 +455,12 @@ func (m *StartTransaction) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.IdTagInfo); err != nil {
 				return err
 			}
-			idTagInfoReceived = true
+			idTagInfoReceived = string(v) != "null"
 		case "transactionId":
 			if err := json.Unmarshal([]byte(v), &m.TransactionId); err != nil {
 				return err
 			}
-			transactionIdReceived = true
+			transactionIdReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index 246eb85..9d1b5f0 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -44,7 +44,7 @@ func (m *CancelReservation) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ReservationId); err != nil {
 				return err
 			}
-			reservationIdReceived = true
+			reservationIdReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -106,12 +106,12 @@ func (m *ChangeAvailability) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
 				return err
 			}
-			connectorIdReceived = true
+			connectorIdReceived = string(v) != "null"
 		case "type":
 			if err := json.Unmarshal([]byte(v), &m.Type); err != nil {
 				return err
 			}
-			typeReceived = true
+			typeReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -177,12 +177,12 @@ func (m *ChangeConfiguration) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Key); err != nil {
 				return err
 			}
-			keyReceived = true
+			keyReceived = string(v) != "null"
 		case "value":
 			if err := json.Unmarshal([]byte(v), &m.Value); err != nil {
 				return err
 			}
-			valueReceived = true
+			valueReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -334,22 +334,22 @@ func (m *ChargingProfile) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ChargingProfileId); err != nil {
 				return err
 			}
-			chargingProfileIdReceived = true
+			chargingProfileIdReceived = string(v) != "null"
 		case "chargingProfileKind":
 			if err := json.Unmarshal([]byte(v), &m.ChargingProfileKind); err != nil {
 				return err
 			}
-			chargingProfileKindReceived = true
+			chargingProfileKindReceived = string(v) != "null"
 		case "chargingProfilePurpose":
 			if err := json.Unmarshal([]byte(v), &m.ChargingProfilePurpose); err != nil {
 				return err
 			}
-			chargingProfilePurposeReceived = true
+			chargingProfilePurposeReceived = string(v) != "null"
 		case "chargingSchedule":
 			if err := json.Unmarshal([]byte(v), &m.ChargingSchedule); err != nil {
 				return err
 			}
-			chargingScheduleReceived = true
+			chargingScheduleReceived = string(v) != "null"
 		case "recurrencyKind":
 			if err := json.Unmarshal([]byte(v), &m.RecurrencyKind); err != nil {
 				return err
@@ -358,7 +358,7 @@ func (m *ChargingProfile) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.StackLevel); err != nil {
 				return err
 			}
-			stackLevelReceived = true
+			stackLevelReceived = string(v) != "null"
 		case "transactionId":
 			if err := json.Unmarshal([]byte(v), &m.TransactionId); err != nil {
 				return err
@@ -583,7 +583,7 @@ func (m *DataTransfer) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.VendorId); err != nil {
 				return err
 			}
-			vendorIdReceived = true
+			vendorIdReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -662,12 +662,12 @@ func (m *GetCompositeSchedule) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
 				return err
 			}
-			connectorIdReceived = true
+			connectorIdReceived = string(v) != "null"
 		case "duration":
 			if err := json.Unmarshal([]byte(v), &m.Duration); err != nil {
 				return err
 			}
-			durationReceived = true
+			durationReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -788,7 +788,7 @@ func (m *GetDiagnostics) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Location); err != nil {
 				return err
 			}
-			locationReceived = true
+			locationReceived = string(v) != "null"
 		case "retries":
 			if err := json.Unmarshal([]byte(v), &m.Retries); err != nil {
 				return err
@@ -907,7 +907,7 @@ func (m *IdTagInfo) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		}
 	}
 	// check if status (a required property) was received
@@ -966,7 +966,7 @@ func (m *LocalAuthorizationListItems) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.IdTag); err != nil {
 				return err
 			}
-			idTagReceived = true
+			idTagReceived = string(v) != "null"
 		case "idTagInfo":
 			if err := json.Unmarshal([]byte(v), &m.IdTagInfo); err != nil {
 				return err
@@ -1071,17 +1071,17 @@ func (m *ReserveNow) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
 				return err
 			}
-			connectorIdReceived = true
+			connectorIdReceived = string(v) != "null"
 		case "expiryDate":
 			if err := json.Unmarshal([]byte(v), &m.ExpiryDate); err != nil {
 				return err
 			}
-			expiryDateReceived = true
+			expiryDateReceived = string(v) != "null"
 		case "idTag":
 			if err := json.Unmarshal([]byte(v), &m.IdTag); err != nil {
 				return err
 			}
-			idTagReceived = true
+			idTagReceived = string(v) != "null"
 		case "parentIdTag":
 			if err := json.Unmarshal([]byte(v), &m.ParentIdTag); err != nil {
 				return err
@@ -1090,7 +1090,7 @@ func (m *ReserveNow) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ReservationId); err != nil {
 				return err
 			}
-			reservationIdReceived = true
+			reservationIdReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1150,7 +1150,7 @@ func (m *Reset) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Type); err != nil {
 				return err
 			}
-			typeReceived = true
+			typeReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1225,7 +1225,7 @@ func (m *SendLocalList) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ListVersion); err != nil {
 				return err
 			}
-			listVersionReceived = true
+			listVersionReceived = string(v) != "null"
 		case "localAuthorizationList":
 			if err := json.Unmarshal([]byte(v), &m.LocalAuthorizationList); err != nil {
 				return err
@@ -1234,7 +1234,7 @@ func (m *SendLocalList) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.UpdateType); err != nil {
 				return err
 			}
-			updateTypeReceived = true
+			updateTypeReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1303,7 +1303,7 @@ func (m *TriggerMessage) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.RequestedMessage); err != nil {
 				return err
 			}
-			requestedMessageReceived = true
+			requestedMessageReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1398,12 +1398,12 @@ func (m *ChargingSchedule) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ChargingRateUnit); err != nil {
 				return err
 			}
-			chargingRateUnitReceived = true
+			chargingRateUnitReceived = string(v) != "null"
 		case "chargingSchedulePeriod":
 			if err := json.Unmarshal([]byte(v), &m.ChargingSchedulePeriod); err != nil {
 				return err
 			}
-			chargingSchedulePeriodReceived = true
+			chargingSchedulePeriodReceived = string(v) != "null"
 		case "duration":
 			if err := json.Unmarshal([]byte(v), &m.Duration); err != nil {
 				return err
@@ -1492,7 +1492,7 @@ func (m *ChargingSchedulePeriodItems) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Limit); err != nil {
 				return err
 			}
-			limitReceived = true
+			limitReceived = string(v) != "null"
 		case "numberPhases":
 			if err := json.Unmarshal([]byte(v), &m.NumberPhases); err != nil {
 				return err
@@ -1501,7 +1501,7 @@ func (m *ChargingSchedulePeriodItems) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.StartPeriod); err != nil {
 				return err
 			}
-			startPeriodReceived = true
+			startPeriodReceived = string(v) != "null"
 		}
 	}
 	// check if limit (a required property) was received
@@ -1661,22 +1661,22 @@ func (m *CsChargingProfiles) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ChargingProfileId); err != nil {
 				return err
 			}
-			chargingProfileIdReceived = true
+			chargingProfileIdReceived = string(v) != "null"
 		case "chargingProfileKind":
 			if err := json.Unmarshal([]byte(v), &m.ChargingProfileKind); err != nil {
 				return err
 			}
-			chargingProfileKindReceived = true
+			chargingProfileKindReceived = string(v) != "null"
 		case "chargingProfilePurpose":
 			if err := json.Unmarshal([]byte(v), &m.ChargingProfilePurpose); err != nil {
 				return err
 			}
-			chargingProfilePurposeReceived = true
+			chargingProfilePurposeReceived = string(v) != "null"
 		case "chargingSchedule":
 			if err := json.Unmarshal([]byte(v), &m.ChargingSchedule); err != nil {
 				return err
 			}
-			chargingScheduleReceived = true
+			chargingScheduleReceived = string(v) != "null"
 		case "recurrencyKind":
 			if err := json.Unmarshal([]byte(v), &m.RecurrencyKind); err != nil {
 				return err
@@ -1685,7 +1685,7 @@ func (m *CsChargingProfiles) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.StackLevel); err != nil {
 				return err
 			}
-			stackLevelReceived = true
+			stackLevelReceived = string(v) != "null"
 		case "transactionId":
 			if err := json.Unmarshal([]byte(v), &m.TransactionId); err != nil {
 				return err
@@ -1775,12 +1775,12 @@ func (m *SetChargingProfile) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
 				return err
 			}
-			connectorIdReceived = true
+			connectorIdReceived = string(v) != "null"
 		case "csChargingProfiles":
 			if err := json.Unmarshal([]byte(v), &m.CsChargingProfiles); err != nil {
 				return err
 			}
-			csChargingProfilesReceived = true
+			csChargingProfilesReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1832,7 +1832,7 @@ func (m *UnlockConnector) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
 				return err
 			}
-			connectorIdReceived = true
+			connectorIdReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1920,7 +1920,7 @@ func (m *UpdateFirmware) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Location); err != nil {
 				return err
 			}
-			locationReceived = true
+			locationReceived = string(v) != "null"
 		case "retries":
 			if err := json.Unmarshal([]byte(v), &m.Retries); err != nil {
 				return err
@@ -1929,7 +1929,7 @@ func (m *UpdateFirmware) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.RetrieveDate); err != nil {
 				return err
 			}
-			retrieveDateReceived = true
+			retrieveDateReceived = string(v) != "null"
 		case "retryInterval":
 			if err := json.Unmarshal([]byte(v), &m.RetryInterval); err != nil {
 				return err
diff --git a/messages/v1x/csresp/json_encode.go b/messages/v1x/csresp/json_encode.go
index 8dc5821..e32bfd7 100644
--- a/messages/v1x/csresp/json_encode.go
+++ b/messages/v1x/csresp/json_encode.go
@@ -44,7 +44,7 @@ func (m *CancelReservation) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -92,7 +92,7 @@ func (m *ChangeAvailability) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -140,7 +140,7 @@ func (m *ChangeConfiguration) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -237,12 +237,12 @@ func (m *ChargingSchedule) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ChargingRateUnit); err != nil {
 				return err
 			}
-			chargingRateUnitReceived = true
+			chargingRateUnitReceived = string(v) != "null"
 		case "chargingSchedulePeriod":
 			if err := json.Unmarshal([]byte(v), &m.ChargingSchedulePeriod); err != nil {
 				return err
 			}
-			chargingSchedulePeriodReceived = true
+			chargingSchedulePeriodReceived = string(v) != "null"
 		case "duration":
 			if err := json.Unmarshal([]byte(v), &m.Duration); err != nil {
 				return err
@@ -331,7 +331,7 @@ func (m *ChargingSchedulePeriodItems) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Limit); err != nil {
 				return err
 			}
-			limitReceived = true
+			limitReceived = string(v) != "null"
 		case "numberPhases":
 			if err := json.Unmarshal([]byte(v), &m.NumberPhases); err != nil {
 				return err
@@ -340,7 +340,7 @@ func (m *ChargingSchedulePeriodItems) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.StartPeriod); err != nil {
 				return err
 			}
-			startPeriodReceived = true
+			startPeriodReceived = string(v) != "null"
 		}
 	}
 	// check if limit (a required property) was received
@@ -390,7 +390,7 @@ func (m *ClearCache) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -438,7 +438,7 @@ func (m *ClearChargingProfile) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -513,12 +513,12 @@ func (m *ConfigurationKeyItems) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Key); err != nil {
 				return err
 			}
-			keyReceived = true
+			keyReceived = string(v) != "null"
 		case "readonly":
 			if err := json.Unmarshal([]byte(v), &m.Readonly); err != nil {
 				return err
 			}
-			readonlyReceived = true
+			readonlyReceived = string(v) != "null"
 		case "value":
 			if err := json.Unmarshal([]byte(v), &m.Value); err != nil {
 				return err
@@ -589,7 +589,7 @@ func (m *DataTransfer) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -687,7 +687,7 @@ func (m *GetCompositeSchedule) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -836,7 +836,7 @@ func (m *GetLocalListVersion) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ListVersion); err != nil {
 				return err
 			}
-			listVersionReceived = true
+			listVersionReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -884,7 +884,7 @@ func (m *RemoteStartTransaction) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -932,7 +932,7 @@ func (m *RemoteStopTransaction) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -980,7 +980,7 @@ func (m *ReserveNow) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1028,7 +1028,7 @@ func (m *Reset) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1076,7 +1076,7 @@ func (m *SendLocalList) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1124,7 +1124,7 @@ func (m *SetChargingProfile) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1172,7 +1172,7 @@ func (m *TriggerMessage) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1220,7 +1220,7 @@ func (m *UnlockConnector) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Status); err != nil {
 				return err
 			}
-			statusReceived = true
+			statusReceived = string(v) != "null"
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
-- 
2.43.0


From 93b587e3408f4ea7f600821be0ca0911deb081f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 05/38] fix: check required and unknown properties of
 RemoteStart/StopTransaction.req

---
 messages/v1x/csreq/json_encode.go | 58 +++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index 9d1b5f0..7c4e2bf 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -980,6 +980,64 @@ func (m *LocalAuthorizationListItems) UnmarshalJSON(b []byte) error {
 	return nil
 }
 
+func (m *RemoteStartTransaction) UnmarshalJSON(b []byte) error {
+	idTagReceived := false
+	var jsonMap map[string]json.RawMessage
+	if err := json.Unmarshal(b, &jsonMap); err != nil {
+		return err
+	}
+	// parse all the defined properties
+	for k, v := range jsonMap {
+		switch k {
+		case "chargingProfile":
+			if err := json.Unmarshal([]byte(v), &m.ChargingProfile); err != nil {
+				return err
+			}
+		case "connectorId":
+			if err := json.Unmarshal([]byte(v), &m.ConnectorId); err != nil {
+				return err
+			}
+		case "idTag":
+			if err := json.Unmarshal([]byte(v), &m.IdTag); err != nil {
+				return err
+			}
+			idTagReceived = string(v) != "null"
+		default:
+			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+		}
+	}
+	// check if idTag (a required property) was received
+	if !idTagReceived {
+		return errors.New("\"idTag\" is required but was not present")
+	}
+	return nil
+}
+
+func (m *RemoteStopTransaction) UnmarshalJSON(b []byte) error {
+	transactionIdReceived := false
+	var jsonMap map[string]json.RawMessage
+	if err := json.Unmarshal(b, &jsonMap); err != nil {
+		return err
+	}
+	// parse all the defined properties
+	for k, v := range jsonMap {
+		switch k {
+		case "transactionId":
+			if err := json.Unmarshal([]byte(v), &m.TransactionId); err != nil {
+				return err
+			}
+			transactionIdReceived = string(v) != "null"
+		default:
+			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
+		}
+	}
+	// check if transactionId (a required property) was received
+	if !transactionIdReceived {
+		return errors.New("\"transactionId\" is required but was not present")
+	}
+	return nil
+}
+
 func (m *ReserveNow) MarshalJSON() ([]byte, error) {
 	buf := bytes.NewBuffer(make([]byte, 0))
 	buf.WriteString("{")
-- 
2.43.0


From 20ea8454d256d3935d0f9150a4257151ae2a016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 06/38] fix: answer with an InternalError when a response
 cannot be encoded

---
 ws/conn.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index 5c872a7..bedd3c2 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -257,18 +257,31 @@ func (c *Conn) callResultToResponse(result *CallResultMessage) (messages.Respons
 	return resp, Nil
 }
 func (c *Conn) SendResponse(id MessageID, response messages.Response, err error) error {
-	return c.sendMessage(unmarshalResponse(id, response, err))
+	msg := unmarshalResponse(id, response, err)
+	bts, err := json.Marshal(msg)
+	if err != nil {
+		err = fmt.Errorf("on marshalling message: %w", err)
+		// the peer is waiting for an answer, let it know there is none
+		if sendErr := c.sendMessage(NewCallErrorMessage(id, InternalError, err.Error())); sendErr != nil {
+			return sendErr
+		}
+		return err
+	}
+	return c.sendBytes(bts)
 }
 func (c *Conn) sendMessage(msg Message) error {
-	c.sendMux.Lock()
-	defer c.sendMux.Unlock()
-
 	bts, err := json.Marshal(msg)
 	if err != nil {
 		return fmt.Errorf("on marshalling message: %w", err)
 	}
+	return c.sendBytes(bts)
+}
+func (c *Conn) sendBytes(bts []byte) error {
+	c.sendMux.Lock()
+	defer c.sendMux.Unlock()
+
 	log.Debug("Sending message [raw]: %v", string(bts))
-	err = c.Conn.WriteMessage(websocket.TextMessage, bts)
+	err := c.Conn.WriteMessage(websocket.TextMessage, bts)
 	if err != nil {
 		return fmt.Errorf("on sending message: %w", err)
 	}
-- 
2.43.0


From 88447371035bc04fe4044fa4d49544357f33798d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 07/38] fix: synchronise the requests waiting for an answer on
 a websocket connection

The maps were accessed from several goroutines without synchronisation, a
duplicate or late answer blocked the reader of the connection forever, and
requests that failed or timed out were never forgotten.
---
 ws/conn.go | 57 ++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index bedd3c2..333dd4f 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -29,7 +29,9 @@ type Conn struct {
 	ctx       context.Context
 	cancelCtx context.CancelFunc
 	*websocket.Conn
-	sendMux      sync.Mutex
+	sendMux sync.Mutex
+	// sentMux guards sentMessages and responsesOf
+	sentMux      sync.Mutex
 	sentMessages map[MessageID]messages.Request
 	requests     chan struct {
 		messages.Request
@@ -187,8 +189,11 @@ func (c *Conn) ReadMessage() error {
 
 	log.Debug("Received a message, parsed: %v", msg)
 
+	var sentRequest messages.Request
+	var responses chan<- CallResponse
 	if msg.Type() == CallResult || msg.Type() == CallError {
-		_, ok := c.sentMessages[msg.ID()]
+		var ok bool
+		sentRequest, responses, ok = c.takeSent(msg.ID())
 		if !ok {
 			return errors.New("received call error/result without sending any call message")
 		}
@@ -209,13 +214,13 @@ func (c *Conn) ReadMessage() error {
 		}{req, msg.ID()}
 	case *CallResultMessage:
 		var resp messages.Response
-		resp, wserr = c.callResultToResponse(m)
-		c.responsesOf[m.ID()] <- CallResponse{
+		resp, wserr = c.callResultToResponse(sentRequest, m)
+		responses <- CallResponse{
 			response: resp,
 			err:      wserr,
 		}
 	case *CallErrorMessage:
-		c.responsesOf[m.ID()] <- CallResponse{
+		responses <- CallResponse{
 			response: nil,
 			err:      m,
 		}
@@ -239,12 +244,7 @@ func (c *Conn) callToRequest(call *CallMessage) (messages.Request, ErrorCode) {
 	return req, Nil
 }
 
-func (c *Conn) callResultToResponse(result *CallResultMessage) (messages.Response, ErrorCode) {
-	id := result.ID()
-	request, ok := c.sentMessages[id]
-	if !ok {
-		return nil, GenericError
-	}
+func (c *Conn) callResultToResponse(request messages.Request, result *CallResultMessage) (messages.Response, ErrorCode) {
 	resp := request.GetResponse()
 	originalPayload, err := json.Marshal(result.Payload)
 	if err != nil {
@@ -296,27 +296,50 @@ func (c *Conn) Requests() <-chan struct {
 	return c.requests
 }
 
+// registerSent remembers a request until its answer arrives
+func (c *Conn) registerSent(id MessageID, request messages.Request) <-chan CallResponse {
+	// the one answer must never block the reader of the connection
+	responses := make(chan CallResponse, 1)
+	c.sentMux.Lock()
+	defer c.sentMux.Unlock()
+	c.sentMessages[id] = request
+	c.responsesOf[id] = responses
+	return responses
+}
+
+// takeSent forgets a sent request, so that only one answer is ever delivered for it
+func (c *Conn) takeSent(id MessageID) (messages.Request, chan<- CallResponse, bool) {
+	c.sentMux.Lock()
+	defer c.sentMux.Unlock()
+	request, ok := c.sentMessages[id]
+	responses := c.responsesOf[id]
+	delete(c.sentMessages, id)
+	delete(c.responsesOf, id)
+	return request, responses, ok
+}
+
 func (c *Conn) SendRequest(request messages.Request) (messages.Response, error) {
 	id := MessageID(uuid.New().String())
 	msg, err := UnmarshalRequest(id, request)
 	if err != nil {
 		return nil, err
 	}
-	c.sentMessages[id] = request
-	c.responsesOf[id] = make(chan CallResponse)
+	responses := c.registerSent(id, request)
+	// forget the request when no answer came
+	defer c.takeSent(id)
 	err = c.sendMessage(msg)
 	if err != nil {
 		return nil, err
 	}
+	timeout := time.NewTimer(internal.DefaultRequestTimeout)
+	defer timeout.Stop()
 	select {
-	case callResponse := <-c.responsesOf[id]:
-		delete(c.sentMessages, id)
-		delete(c.responsesOf, id)
+	case callResponse := <-responses:
 		if callResponse.err != Nil {
 			return nil, callResponse.err
 		}
 		return callResponse.response, nil
-	case <-time.After(internal.DefaultRequestTimeout):
+	case <-timeout.C:
 		return nil, fmt.Errorf("request timeout exceeded")
 	}
 }
-- 
2.43.0


From 23327c95a3d4ccc58774cbf5339a2cbfd7853b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 08/38] fix: refuse websocket messages with missing or
 superfluous fields

Short arrays and unknown message types crashed the process.
---
 ws/conn.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ws/conn.go b/ws/conn.go
index 333dd4f..32bdca8 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -121,6 +121,9 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 	if err != nil {
 		return nil, fmt.Errorf("on unmarshalling websocket message: %w", err)
 	}
+	if len(frame) < 2 {
+		return nil, errors.New("message has no message type and message ID")
+	}
 	msgType, ok := frame[0].(float64)
 	if !ok {
 		return nil, fmt.Errorf("first field is not a message type: %w", err)
@@ -132,6 +135,9 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 	id := MessageID(idStr)
 	switch MessageType(msgType) {
 	case Call:
+		if len(frame) != 4 {
+			return nil, errors.New("call message must have 4 fields")
+		}
 		actionStr, ok := frame[2].(string)
 		if !ok {
 			return nil, fmt.Errorf("third field is not action: %w", err)
@@ -143,12 +149,18 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 		}
 		return &CallMessage{id, action, payload}, nil
 	case CallResult:
+		if len(frame) != 3 {
+			return nil, errors.New("call result message must have 3 fields")
+		}
 		payload, ok := frame[2].(map[string]interface{})
 		if !ok {
 			return nil, fmt.Errorf("third field is not payload: %w", err)
 		}
 		return &CallResultMessage{id, payload}, nil
 	case CallError:
+		if len(frame) != 5 {
+			return nil, errors.New("call error message must have 5 fields")
+		}
 		codeStr, ok := frame[2].(string)
 		if !ok {
 			return nil, fmt.Errorf("third field is not error code: %w", err)
@@ -163,7 +175,7 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 		}
 		return &CallErrorMessage{id, ErrorCode(codeStr), description, details}, nil
 	}
-	return nil, nil
+	return nil, fmt.Errorf("unknown message type: %v", msgType)
 }
 
 func (c *Conn) ReadMessageAsync() <-chan error {
-- 
2.43.0


From 03147798a7da05ff5098aa5da06a0b9cc669eca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 09/38] fix: answer calls of the wrong direction with an error,
 without running the handler

---
 cp/json.go | 6 ++++++
 cs/cs.go   | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/cp/json.go b/cp/json.go
index 15a0ceb..7c51fd0 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -55,6 +55,12 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 			cprequest, ok := req.Request.(csreq.CentralSystemRequest)
 			if !ok {
 				log.Error(csreq.ErrorNotCentralSystemRequest.Error())
+				// the central system is waiting for an answer
+				err := cp.conn.SendResponse(req.MessageID, nil, csreq.ErrorNotCentralSystemRequest)
+				if err != nil {
+					log.Error(err.Error())
+				}
+				continue
 			}
 			cpresponse, err := cshandler(cprequest)
 			err = cp.conn.SendResponse(req.MessageID, cpresponse, err)
diff --git a/cs/cs.go b/cs/cs.go
index b9a2412..200d350 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -142,6 +142,11 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 			cprequest, ok := req.Request.(cpreq.ChargePointRequest)
 			if !ok {
 				log.Error(cpreq.ErrorNotChargePointRequest.Error())
+				// the charge point is waiting for an answer
+				err := conn.SendResponse(req.MessageID, nil, cpreq.ErrorNotChargePointRequest)
+				if err != nil {
+					log.Error(err.Error())
+				}
 				continue
 			}
 			cpresponse, err := cphandler(cprequest, ChargePointRequestMetadata{
-- 
2.43.0


From 3fa7532261f105d970d048dca32836d0a4889d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 10/38] fix: tell the SOAP DataTransfer messages of both
 directions apart by namespace

---
 soap/marshal.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/soap/marshal.go b/soap/marshal.go
index 5ce64a4..a402a37 100644
--- a/soap/marshal.go
+++ b/soap/marshal.go
@@ -10,6 +10,10 @@ import (
 	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
 )
 
+// centralSystemNamespace is the namespace of the requests that
+// charge points send to the central system, and of their responses
+const centralSystemNamespace = "urn://Ocpp/Cs/2012/06/"
+
 func Unmarshal(data []byte) (receivedEnvelope, error) {
 	parsed := receivedEnvelope{}
 	err := xml.Unmarshal(data, &parsed)
@@ -109,7 +113,12 @@ func (b *receivedBody) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 			case "cancelReservationRequest":
 				msg = new(csreq.CancelReservation)
 			case "dataTransferRequest":
-				msg = new(csreq.DataTransfer)
+				// exists in both directions
+				if tt.Name.Space == centralSystemNamespace {
+					msg = new(cpreq.DataTransfer)
+				} else {
+					msg = new(csreq.DataTransfer)
+				}
 			case "getConfigurationRequest":
 				msg = new(csreq.GetConfiguration)
 			case "getLocalListVersionRequest":
@@ -141,7 +150,12 @@ func (b *receivedBody) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 			case "cancelReservationResponse":
 				msg = new(csresp.CancelReservation)
 			case "dataTransferResponse":
-				msg = new(csresp.DataTransfer)
+				// exists in both directions
+				if tt.Name.Space == centralSystemNamespace {
+					msg = new(cpresp.DataTransfer)
+				} else {
+					msg = new(csresp.DataTransfer)
+				}
 			case "getConfigurationResponse":
 				msg = new(csresp.GetConfiguration)
 			case "getLocalListVersionResponse":
-- 
2.43.0


From 98254fe1d435e3ca28d598de5581bbe6f994ec59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 11/38] fix: don't crash on SOAP requests without a header

---
 soap/server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/soap/server.go b/soap/server.go
index c0fba7a..c914697 100644
--- a/soap/server.go
+++ b/soap/server.go
@@ -30,7 +30,12 @@ func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler)
 		return errors.New("received message is not a request")
 	}
 
-	resp, err := handle(req, reqEnv.Header.ChargeBoxIdentity)
+	var cpID string
+	// the header is optional
+	if reqEnv.Header != nil {
+		cpID = reqEnv.Header.ChargeBoxIdentity
+	}
+	resp, err := handle(req, cpID)
 	if err != nil {
 		log.Error("couldn't handle request: %w", err)
 	}
-- 
2.43.0


From eea8a16a6d178f4e0719991c9875dee3e8c95292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 12/38] fix: don't announce a deflate encoding for plain SOAP
 responses

---
 soap/server.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/soap/server.go b/soap/server.go
index c914697..f4575ce 100644
--- a/soap/server.go
+++ b/soap/server.go
@@ -48,7 +48,6 @@ func Handle(w http.ResponseWriter, r *http.Request, handle ocpp.MessageHandler)
 	log.Debug("Sending raw response: %s", string(rawResp))
 
 	w.Header().Set("Content-Type", "application/soap+xml")
-	w.Header().Set("Content-Encoding", "deflate")
 
 	_, err = w.Write(rawResp)
 	return err
-- 
2.43.0


From 3f0546f2ad563f83c63b3a6043ec76f5f5dc1b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 13/38] fix: return an error when a SOAP response is empty or
 of another type

---
 soap/client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soap/client.go b/soap/client.go
index 8600153..62df66a 100644
--- a/soap/client.go
+++ b/soap/client.go
@@ -111,9 +111,12 @@ func (s *Client) Call(soapAction string, request messages.Request, response mess
 		return fault
 	}
 
+	if respEnvelope.Body.Content == nil {
+		return errors.New("response has no content")
+	}
 	respVal, contentVal := reflect.ValueOf(response), reflect.ValueOf(respEnvelope.Body.Content)
 	if respVal.Type() != contentVal.Type() {
-		panic("incompatible types:" + respVal.Type().String() + contentVal.Type().String())
+		return errors.New("incompatible types: " + respVal.Type().String() + " and " + contentVal.Type().String())
 	}
 
 	respVal.Elem().Set(contentVal.Elem())
-- 
2.43.0


From ba902c8f38612b94cc6961b93cbaf0513a41aef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 14/38] fix: repair the malformed tags of cpresp.DataTransfer
 and cpresp.StopTransaction

---
 messages/v1x/cpresp/messages.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/messages/v1x/cpresp/messages.go b/messages/v1x/cpresp/messages.go
index 597de5e..933a6ba 100644
--- a/messages/v1x/cpresp/messages.go
+++ b/messages/v1x/cpresp/messages.go
@@ -30,7 +30,7 @@ type DataTransfer struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ dataTransferResponse"`
 
-	Data   string `json:"data, xml:"data,omitempty"omitempty"`
+	Data   string `json:"data,omitempty" xml:"data,omitempty"`
 	Status string `json:"status" xml:"status,omitempty"`
 }
 
@@ -87,5 +87,5 @@ type StopTransaction struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ stopTransactionResponse"`
 
-	IdTagInfo *IdTagInfo `json:"idTagInfo, xml:"idTagInfo,omitempty"omitempty"`
+	IdTagInfo *IdTagInfo `json:"idTagInfo,omitempty" xml:"idTagInfo,omitempty"`
 }
-- 
2.43.0


From a5f1a2bda742afa85eae598adbc72edd5904eecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 15/38] fix: use the OCPP 1.5 spelling of
 localAuthorisationList in SOAP

---
 messages/v1x/csreq/messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages/v1x/csreq/messages.go b/messages/v1x/csreq/messages.go
index b06c35d..e375e82 100644
--- a/messages/v1x/csreq/messages.go
+++ b/messages/v1x/csreq/messages.go
@@ -183,7 +183,7 @@ type SendLocalList struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ sendLocalListRequest"`
 
 	ListVersion            int                            `json:"listVersion" xml:"listVersion"`
-	LocalAuthorizationList []*LocalAuthorizationListItems `json:"localAuthorizationList,omitempty" xml:"localAuthorizationList,omitempty"`
+	LocalAuthorizationList []*LocalAuthorizationListItems `json:"localAuthorizationList,omitempty" xml:"localAuthorisationList,omitempty"`
 	UpdateType             string                         `json:"updateType" xml:"updateType"`
 }
 
-- 
2.43.0


From 93546ae7eec6a25bcf3e3c666476c7701d8a96a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 16/38] fix: don't omit required SOAP elements that are zero or
 empty

---
 messages/v1x/cpreq/messages.go  | 30 +++++++++++++++---------------
 messages/v1x/cpresp/messages.go | 10 +++++-----
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/messages/v1x/cpreq/messages.go b/messages/v1x/cpreq/messages.go
index 3ad9bb2..25023d9 100644
--- a/messages/v1x/cpreq/messages.go
+++ b/messages/v1x/cpreq/messages.go
@@ -14,7 +14,7 @@ type Authorize struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ authorizeRequest"`
 
-	IdTag string `json:"idTag" xml:"idTag,omitempty"`
+	IdTag string `json:"idTag" xml:"idTag"`
 }
 
 // BootNotification
@@ -23,9 +23,9 @@ type BootNotification struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ bootNotificationRequest"`
 
 	ChargeBoxSerialNumber   string `json:"chargeBoxSerialNumber,omitempty" xml:"chargeBoxSerialNumber,omitempty"`
-	ChargePointModel        string `json:"chargePointModel" xml:"chargePointModel,omitempty"`
+	ChargePointModel        string `json:"chargePointModel" xml:"chargePointModel"`
 	ChargePointSerialNumber string `json:"chargePointSerialNumber,omitempty" xml:"chargePointSerialNumber,omitempty"`
-	ChargePointVendor       string `json:"chargePointVendor" xml:"chargePointVendor,omitempty"`
+	ChargePointVendor       string `json:"chargePointVendor" xml:"chargePointVendor"`
 	FirmwareVersion         string `json:"firmwareVersion,omitempty" xml:"firmwareVersion,omitempty"`
 	Iccid                   string `json:"iccid,omitempty" xml:"iccid,omitempty"`
 	Imsi                    string `json:"imsi,omitempty" xml:"imsi,omitempty"`
@@ -40,7 +40,7 @@ type DataTransfer struct {
 
 	Data      string `json:"data,omitempty" xml:"data,omitempty"`
 	MessageId string `json:"messageId,omitempty" xml:"messageId,omitempty"`
-	VendorId  string `json:"vendorId" xml:"vendorId,omitempty"`
+	VendorId  string `json:"vendorId" xml:"vendorId"`
 }
 
 // DiagnosticsStatusNotification
@@ -48,7 +48,7 @@ type DiagnosticsStatusNotification struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ diagnosticsStatusNotificationRequest"`
 
-	Status string `json:"status" xml:"status,omitempty"`
+	Status string `json:"status" xml:"status"`
 }
 
 // FirmwareStatusNotification
@@ -56,7 +56,7 @@ type FirmwareStatusNotification struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ firmwareStatusNotificationRequest"`
 
-	Status string `json:"status" xml:"status,omitempty"`
+	Status string `json:"status" xml:"status"`
 }
 
 // Heartbeat
@@ -77,7 +77,7 @@ type MeterValues struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ meterValuesRequest"`
 
-	ConnectorId int `json:"connectorId" xml:"connectorId,omitempty"`
+	ConnectorId int `json:"connectorId" xml:"connectorId"`
 	// MeterValue in OCPP v1.5 is values
 	MeterValue    []*MeterValueItems `json:"meterValue" xml:"values,omitempty"`
 	TransactionId int32              `json:"transactionId,omitempty" xml:"transactionId,omitempty"`
@@ -101,9 +101,9 @@ type StartTransaction struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ startTransactionRequest"`
 
-	ConnectorId   int       `json:"connectorId" xml:"connectorId,omitempty"`
-	IdTag         string    `json:"idTag" xml:"idTag,omitempty"`
-	MeterStart    int       `json:"meterStart" xml:"meterStart,omitempty"`
+	ConnectorId   int       `json:"connectorId" xml:"connectorId"`
+	IdTag         string    `json:"idTag" xml:"idTag"`
+	MeterStart    int       `json:"meterStart" xml:"meterStart"`
 	ReservationId int       `json:"reservationId,omitempty" xml:"reservationId,omitempty"`
 	Timestamp     time.Time `json:"timestamp" xml:"timestamp,omitempty"`
 }
@@ -113,10 +113,10 @@ type StatusNotification struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ statusNotificationRequest"`
 
-	ConnectorId     int                `json:"connectorId" xml:"connectorId,omitempty"`
-	ErrorCode       cpstatus.ErrorCode `json:"errorCode" xml:"errorCode,omitempty"`
+	ConnectorId     int                `json:"connectorId" xml:"connectorId"`
+	ErrorCode       cpstatus.ErrorCode `json:"errorCode" xml:"errorCode"`
 	Info            string             `json:"info,omitempty" xml:"info,omitempty"`
-	Status          string             `json:"status" xml:"status,omitempty"`
+	Status          string             `json:"status" xml:"status"`
 	Timestamp       *time.Time         `json:"timestamp,omitempty" xml:"timestamp,omitempty"`
 	VendorErrorCode string             `json:"vendorErrorCode,omitempty" xml:"vendorErrorCode,omitempty"`
 	VendorId        string             `json:"vendorId,omitempty" xml:"vendorId,omitempty"`
@@ -128,11 +128,11 @@ type StopTransaction struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ stopTransactionRequest"`
 
 	IdTag           string                  `json:"idTag,omitempty" xml:"idTag,omitempty"`
-	MeterStop       int                     `json:"meterStop" xml:"meterStop,omitempty"`
+	MeterStop       int                     `json:"meterStop" xml:"meterStop"`
 	Reason          string                  `json:"reason,omitempty" xml:"reason,omitempty"`
 	Timestamp       time.Time               `json:"timestamp" xml:"timestamp,omitempty"`
 	TransactionData []*TransactionDataItems `json:"transactionData,omitempty" xml:"transactionData,omitempty"`
-	TransactionId   int                     `json:"transactionId" xml:"transactionId,omitempty"`
+	TransactionId   int                     `json:"transactionId" xml:"transactionId"`
 }
 
 // TransactionDataItems
diff --git a/messages/v1x/cpresp/messages.go b/messages/v1x/cpresp/messages.go
index 933a6ba..ae77795 100644
--- a/messages/v1x/cpresp/messages.go
+++ b/messages/v1x/cpresp/messages.go
@@ -18,11 +18,11 @@ type BootNotification struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ bootNotificationResponse"`
 
-	Status   string  `json:"status" xml:"status,omitempty"`
+	Status   string  `json:"status" xml:"status"`
 	CurrentTime time.Time `json:"currentTime" xml:"currentTime,omitempty"`
 
 	// Interval in 1.5 is heartbeatInterval
-	Interval float64 `json:"interval" xml:"heartbeatInterval,omitempty"`
+	Interval float64 `json:"interval" xml:"heartbeatInterval"`
 }
 
 // DataTransfer
@@ -31,7 +31,7 @@ type DataTransfer struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ dataTransferResponse"`
 
 	Data   string `json:"data,omitempty" xml:"data,omitempty"`
-	Status string `json:"status" xml:"status,omitempty"`
+	Status string `json:"status" xml:"status"`
 }
 
 // DiagnosticsStatusNotification
@@ -58,7 +58,7 @@ type Heartbeat struct {
 type IdTagInfo struct {
 	ExpiryDate  *time.Time `json:"expiryDate,omitempty" xml:"expiryDate,omitempty"`
 	ParentIdTag string     `json:"parentIdTag,omitempty" xml:"parentIdTag,omitempty"`
-	Status      string     `json:"status" xml:"status,omitempty"`
+	Status      string     `json:"status" xml:"status"`
 }
 
 // MeterValues
@@ -73,7 +73,7 @@ type StartTransaction struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ startTransactionResponse"`
 
 	IdTagInfo     *IdTagInfo `json:"idTagInfo" xml:"idTagInfo,omitempty"`
-	TransactionId int32      `json:"transactionId" xml:"transactionId,omitempty"`
+	TransactionId int32      `json:"transactionId" xml:"transactionId"`
 }
 
 // StatusNotification
-- 
2.43.0


From fa1f2c2ca7c9a57493b15b910bee6cd82699a454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 17/38] fix: use the OCPP 1.5 layout of transactionData in SOAP

---
 messages/v1x/cpreq/messages.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/messages/v1x/cpreq/messages.go b/messages/v1x/cpreq/messages.go
index 25023d9..f9a320f 100644
--- a/messages/v1x/cpreq/messages.go
+++ b/messages/v1x/cpreq/messages.go
@@ -137,8 +137,9 @@ type StopTransaction struct {
 
 // TransactionDataItems
 type TransactionDataItems struct {
-	SampledValues []*SampledValue `json:"sampledValue" xml:"sampledValue,omitempty"`
-	Timestamp     time.Time       `json:"timestamp" xml:"timestamp,omitempty"`
+	// SampledValues in OCPP v1.5 is values>value
+	SampledValues []*SampledValue `json:"sampledValue" xml:"values>value,omitempty"`
+	Timestamp     time.Time       `json:"timestamp" xml:"values>timestamp,omitempty"`
 }
 
 func (m *Authorize) Action() string                     { return "Authorize" }
-- 
2.43.0


From 616d0a0ce28e3e6ad85d8b7094c9a2f5b2db3e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 18/38] fix: send SOAP elements in the order of the OCPP 1.5
 service descriptions

---
 messages/v1x/cpreq/messages.go  | 28 ++++++++++++++--------------
 messages/v1x/cpresp/messages.go |  6 +++---
 messages/v1x/csreq/messages.go  | 14 +++++++-------
 messages/v1x/csresp/messages.go |  2 +-
 4 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/messages/v1x/cpreq/messages.go b/messages/v1x/cpreq/messages.go
index f9a320f..9fcbacc 100644
--- a/messages/v1x/cpreq/messages.go
+++ b/messages/v1x/cpreq/messages.go
@@ -22,15 +22,15 @@ type BootNotification struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ bootNotificationRequest"`
 
-	ChargeBoxSerialNumber   string `json:"chargeBoxSerialNumber,omitempty" xml:"chargeBoxSerialNumber,omitempty"`
+	ChargePointVendor       string `json:"chargePointVendor" xml:"chargePointVendor"`
 	ChargePointModel        string `json:"chargePointModel" xml:"chargePointModel"`
 	ChargePointSerialNumber string `json:"chargePointSerialNumber,omitempty" xml:"chargePointSerialNumber,omitempty"`
-	ChargePointVendor       string `json:"chargePointVendor" xml:"chargePointVendor"`
+	ChargeBoxSerialNumber   string `json:"chargeBoxSerialNumber,omitempty" xml:"chargeBoxSerialNumber,omitempty"`
 	FirmwareVersion         string `json:"firmwareVersion,omitempty" xml:"firmwareVersion,omitempty"`
 	Iccid                   string `json:"iccid,omitempty" xml:"iccid,omitempty"`
 	Imsi                    string `json:"imsi,omitempty" xml:"imsi,omitempty"`
-	MeterSerialNumber       string `json:"meterSerialNumber,omitempty" xml:"meterSerialNumber,omitempty"`
 	MeterType               string `json:"meterType,omitempty" xml:"meterType,omitempty"`
+	MeterSerialNumber       string `json:"meterSerialNumber,omitempty" xml:"meterSerialNumber,omitempty"`
 }
 
 // DataTransfer
@@ -38,9 +38,9 @@ type DataTransfer struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ dataTransferRequest"`
 
-	Data      string `json:"data,omitempty" xml:"data,omitempty"`
-	MessageId string `json:"messageId,omitempty" xml:"messageId,omitempty"`
 	VendorId  string `json:"vendorId" xml:"vendorId"`
+	MessageId string `json:"messageId,omitempty" xml:"messageId,omitempty"`
+	Data      string `json:"data,omitempty" xml:"data,omitempty"`
 }
 
 // DiagnosticsStatusNotification
@@ -67,9 +67,9 @@ type Heartbeat struct {
 
 // MeterValueItems
 type MeterValueItems struct {
+	Timestamp     time.Time       `json:"timestamp" xml:"timestamp,omitempty"`
 	// SampledValues in OCPP v1.5 is value
 	SampledValues []*SampledValue `json:"sampledValue" xml:"value,omitempty"`
-	Timestamp     time.Time       `json:"timestamp" xml:"timestamp,omitempty"`
 }
 
 // MeterValues
@@ -78,9 +78,9 @@ type MeterValues struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ meterValuesRequest"`
 
 	ConnectorId int `json:"connectorId" xml:"connectorId"`
+	TransactionId int32              `json:"transactionId,omitempty" xml:"transactionId,omitempty"`
 	// MeterValue in OCPP v1.5 is values
 	MeterValue    []*MeterValueItems `json:"meterValue" xml:"values,omitempty"`
-	TransactionId int32              `json:"transactionId,omitempty" xml:"transactionId,omitempty"`
 }
 
 // SampledValue
@@ -103,9 +103,9 @@ type StartTransaction struct {
 
 	ConnectorId   int       `json:"connectorId" xml:"connectorId"`
 	IdTag         string    `json:"idTag" xml:"idTag"`
+	Timestamp     time.Time `json:"timestamp" xml:"timestamp,omitempty"`
 	MeterStart    int       `json:"meterStart" xml:"meterStart"`
 	ReservationId int       `json:"reservationId,omitempty" xml:"reservationId,omitempty"`
-	Timestamp     time.Time `json:"timestamp" xml:"timestamp,omitempty"`
 }
 
 // StatusNotification
@@ -114,12 +114,12 @@ type StatusNotification struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ statusNotificationRequest"`
 
 	ConnectorId     int                `json:"connectorId" xml:"connectorId"`
+	Status          string             `json:"status" xml:"status"`
 	ErrorCode       cpstatus.ErrorCode `json:"errorCode" xml:"errorCode"`
 	Info            string             `json:"info,omitempty" xml:"info,omitempty"`
-	Status          string             `json:"status" xml:"status"`
 	Timestamp       *time.Time         `json:"timestamp,omitempty" xml:"timestamp,omitempty"`
-	VendorErrorCode string             `json:"vendorErrorCode,omitempty" xml:"vendorErrorCode,omitempty"`
 	VendorId        string             `json:"vendorId,omitempty" xml:"vendorId,omitempty"`
+	VendorErrorCode string             `json:"vendorErrorCode,omitempty" xml:"vendorErrorCode,omitempty"`
 }
 
 // StopTransaction
@@ -127,19 +127,19 @@ type StopTransaction struct {
 	chargepointRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ stopTransactionRequest"`
 
+	TransactionId   int                     `json:"transactionId" xml:"transactionId"`
 	IdTag           string                  `json:"idTag,omitempty" xml:"idTag,omitempty"`
-	MeterStop       int                     `json:"meterStop" xml:"meterStop"`
-	Reason          string                  `json:"reason,omitempty" xml:"reason,omitempty"`
 	Timestamp       time.Time               `json:"timestamp" xml:"timestamp,omitempty"`
+	MeterStop       int                     `json:"meterStop" xml:"meterStop"`
 	TransactionData []*TransactionDataItems `json:"transactionData,omitempty" xml:"transactionData,omitempty"`
-	TransactionId   int                     `json:"transactionId" xml:"transactionId"`
+	Reason          string                  `json:"reason,omitempty" xml:"reason,omitempty"`
 }
 
 // TransactionDataItems
 type TransactionDataItems struct {
+	Timestamp     time.Time       `json:"timestamp" xml:"values>timestamp,omitempty"`
 	// SampledValues in OCPP v1.5 is values>value
 	SampledValues []*SampledValue `json:"sampledValue" xml:"values>value,omitempty"`
-	Timestamp     time.Time       `json:"timestamp" xml:"values>timestamp,omitempty"`
 }
 
 func (m *Authorize) Action() string                     { return "Authorize" }
diff --git a/messages/v1x/cpresp/messages.go b/messages/v1x/cpresp/messages.go
index ae77795..0bc5926 100644
--- a/messages/v1x/cpresp/messages.go
+++ b/messages/v1x/cpresp/messages.go
@@ -30,8 +30,8 @@ type DataTransfer struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ dataTransferResponse"`
 
-	Data   string `json:"data,omitempty" xml:"data,omitempty"`
 	Status string `json:"status" xml:"status"`
+	Data   string `json:"data,omitempty" xml:"data,omitempty"`
 }
 
 // DiagnosticsStatusNotification
@@ -56,9 +56,9 @@ type Heartbeat struct {
 
 // IdTagInfo
 type IdTagInfo struct {
+	Status      string     `json:"status" xml:"status"`
 	ExpiryDate  *time.Time `json:"expiryDate,omitempty" xml:"expiryDate,omitempty"`
 	ParentIdTag string     `json:"parentIdTag,omitempty" xml:"parentIdTag,omitempty"`
-	Status      string     `json:"status" xml:"status"`
 }
 
 // MeterValues
@@ -72,8 +72,8 @@ type StartTransaction struct {
 	chargepointResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cs/2012/06/ startTransactionResponse"`
 
-	IdTagInfo     *IdTagInfo `json:"idTagInfo" xml:"idTagInfo,omitempty"`
 	TransactionId int32      `json:"transactionId" xml:"transactionId"`
+	IdTagInfo     *IdTagInfo `json:"idTagInfo" xml:"idTagInfo,omitempty"`
 }
 
 // StatusNotification
diff --git a/messages/v1x/csreq/messages.go b/messages/v1x/csreq/messages.go
index e375e82..a50b1ed 100644
--- a/messages/v1x/csreq/messages.go
+++ b/messages/v1x/csreq/messages.go
@@ -85,9 +85,9 @@ type DataTransfer struct {
 	centralSystemRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ dataTransferRequest"`
 
-	Data      string `json:"data,omitempty" xml:"data,omitempty"`
-	MessageId string `json:"messageId,omitempty" xml:"messageId,omitempty"`
 	VendorId  string `json:"vendorId" xml:"vendorId"`
+	MessageId string `json:"messageId,omitempty" xml:"messageId,omitempty"`
+	Data      string `json:"data,omitempty" xml:"data,omitempty"`
 }
 
 // GetCompositeSchedule
@@ -114,10 +114,10 @@ type GetDiagnostics struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ getDiagnosticsRequest"`
 
 	Location      string     `json:"location" xml:"location"`
-	Retries       int        `json:"retries,omitempty" xml:"retries,omitempty"`
-	RetryInterval int        `json:"retryInterval,omitempty" xml:"retryInterval,omitempty"`
 	StartTime     *time.Time `json:"startTime,omitempty" xml:"startTime,omitempty"`
 	StopTime      *time.Time `json:"stopTime,omitempty" xml:"stopTime,omitempty"`
+	Retries       int        `json:"retries,omitempty" xml:"retries,omitempty"`
+	RetryInterval int        `json:"retryInterval,omitempty" xml:"retryInterval,omitempty"`
 }
 
 // GetLocalListVersion
@@ -128,9 +128,9 @@ type GetLocalListVersion struct {
 
 // IdTagInfo
 type IdTagInfo struct {
+	Status      string     `json:"status" xml:"status"`
 	ExpiryDate  *time.Time `json:"expiryDate,omitempty" xml:"expiryDate,omitempty"`
 	ParentIdTag string     `json:"parentIdTag,omitempty" xml:"parentIdTag,omitempty"`
-	Status      string     `json:"status" xml:"status"`
 }
 
 // LocalAuthorizationListItems
@@ -182,9 +182,9 @@ type SendLocalList struct {
 	centralSystemRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ sendLocalListRequest"`
 
+	UpdateType             string                         `json:"updateType" xml:"updateType"`
 	ListVersion            int                            `json:"listVersion" xml:"listVersion"`
 	LocalAuthorizationList []*LocalAuthorizationListItems `json:"localAuthorizationList,omitempty" xml:"localAuthorisationList,omitempty"`
-	UpdateType             string                         `json:"updateType" xml:"updateType"`
 }
 
 // TriggerMessage
@@ -209,9 +209,9 @@ type UpdateFirmware struct {
 	centralSystemRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ updateFirmwareRequest"`
 
+	RetrieveDate  time.Time `json:"retrieveDate" xml:"retrieveDate"`
 	Location      string    `json:"location" xml:"location"`
 	Retries       float64   `json:"retries,omitempty" xml:"retries,omitempty"`
-	RetrieveDate  time.Time `json:"retrieveDate" xml:"retrieveDate"`
 	RetryInterval float64   `json:"retryInterval,omitempty" xml:"retryInterval,omitempty"`
 }
 
diff --git a/messages/v1x/csresp/messages.go b/messages/v1x/csresp/messages.go
index 59c126a..3f299a4 100644
--- a/messages/v1x/csresp/messages.go
+++ b/messages/v1x/csresp/messages.go
@@ -73,8 +73,8 @@ type DataTransfer struct {
 	centralSystemResponse
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ dataTransferResponse"`
 
-	Data   string `json:"data,omitempty" xml:"data,omitempty"`
 	Status string `json:"status" xml:"status"`
+	Data   string `json:"data,omitempty" xml:"data,omitempty"`
 }
 
 // GetCompositeSchedule
-- 
2.43.0


From 0ebcc19869162530f249c0ac6227825ee2a3c713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 19/38] fix: send errors as SOAP 1.2 faults, whose reason the
 caller can read

---
 soap/marshal.go |  8 ++++++--
 soap/models.go  | 17 +++++++++++------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/soap/marshal.go b/soap/marshal.go
index a402a37..0db1210 100644
--- a/soap/marshal.go
+++ b/soap/marshal.go
@@ -26,9 +26,13 @@ func Unmarshal(data []byte) (receivedEnvelope, error) {
 func Marshal(data interface{}, err error, NS string) ([]byte, error) {
 	respEnv := toSendEnvelope{XMLNS: NS}
 	if err != nil {
-		respEnv.Body.Fault = &toSendFault{Reason: err.Error()}
+		respEnv.Body.Fault = &toSendFault{
+			Code:   "S:Receiver",
+			Reason: toSendReasonText{Lang: "en", Text: err.Error()},
+		}
+	} else {
+		respEnv.Body.Content = data
 	}
-	respEnv.Body.Content = data
 
 	return xml.Marshal(respEnv)
 }
diff --git a/soap/models.go b/soap/models.go
index c1be438..73f6142 100644
--- a/soap/models.go
+++ b/soap/models.go
@@ -86,13 +86,18 @@ type toSendBody struct {
 type toSendFault struct {
 	XMLName xml.Name `xml:"S:Fault,omitempty"`
 
-	Code   string `xml:"Code,omitempty"`
-	Reason string `xml:"reason,omitempty"`
-	String string `xml:"faultstring,omitempty"`
-	Actor  string `xml:"faultactor,omitempty"`
-	Detail string `xml:"detail,omitempty"`
+	Code   string           `xml:"S:Code>S:Value"`
+	Reason toSendReasonText `xml:"S:Reason>S:Text"`
+	String string           `xml:"faultstring,omitempty"`
+	Actor  string           `xml:"faultactor,omitempty"`
+	Detail string           `xml:"detail,omitempty"`
+}
+
+type toSendReasonText struct {
+	Lang string `xml:"xml:lang,attr"`
+	Text string `xml:",chardata"`
 }
 
 func (f *toSendFault) Error() string {
-	return f.Reason
+	return f.Reason.Text
 }
-- 
2.43.0


From 44b2f8e48b7f49dbc44b9f9c416cd4276fddb701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 20/38] fix: put the charge box identity in the namespace of
 the called service

---
 soap/client.go  |  7 ++++++-
 soap/marshal.go | 11 ++++++++---
 soap/models.go  |  8 +++++++-
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/soap/client.go b/soap/client.go
index 62df66a..021d459 100644
--- a/soap/client.go
+++ b/soap/client.go
@@ -13,6 +13,7 @@ import (
 	"github.com/voltbras/go-ocpp/internal"
 	"github.com/voltbras/go-ocpp/internal/log"
 	"github.com/voltbras/go-ocpp/messages"
+	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
 
 	"github.com/google/uuid"
 )
@@ -47,9 +48,13 @@ func (s *Client) Call(soapAction string, request messages.Request, response mess
 		To:        s.url,
 		MessageID: "uuid:" + uuid.New().String(),
 	}
+	envelope.Header.ChargeBoxIdentity.XMLName = xml.Name{Space: chargePointNamespace, Local: "chargeBoxIdentity"}
+	if _, ok := request.(cpreq.ChargePointRequest); ok {
+		envelope.Header.ChargeBoxIdentity.XMLName.Space = centralSystemNamespace
+	}
 	if options != nil {
 		envelope.Header.From = toSendFrom(options.From)
-		envelope.Header.ChargeBoxIdentity = options.ChargeBoxIdentity
+		envelope.Header.ChargeBoxIdentity.Value = options.ChargeBoxIdentity
 	}
 	envelope.Body.Content = request
 	buffer := new(bytes.Buffer)
diff --git a/soap/marshal.go b/soap/marshal.go
index 0db1210..63321be 100644
--- a/soap/marshal.go
+++ b/soap/marshal.go
@@ -10,9 +10,14 @@ import (
 	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
 )
 
-// centralSystemNamespace is the namespace of the requests that
-// charge points send to the central system, and of their responses
-const centralSystemNamespace = "urn://Ocpp/Cs/2012/06/"
+const (
+	// centralSystemNamespace is the namespace of the requests that
+	// charge points send to the central system, and of their responses
+	centralSystemNamespace = "urn://Ocpp/Cs/2012/06/"
+	// chargePointNamespace is the namespace of the requests that
+	// the central system sends to charge points, and of their responses
+	chargePointNamespace = "urn://Ocpp/Cp/2012/06/"
+)
 
 func Unmarshal(data []byte) (receivedEnvelope, error) {
 	parsed := receivedEnvelope{}
diff --git a/soap/models.go b/soap/models.go
index 73f6142..15f96a7 100644
--- a/soap/models.go
+++ b/soap/models.go
@@ -73,7 +73,13 @@ type toSendHeader struct {
 	Action            string `xml:"wsa5:Action"`
 	MessageID         string `xml:"wsa5:MessageID"`
 	From              toSendFrom
-	ChargeBoxIdentity string `xml:"urn://Ocpp/Cp/2012/06/ chargeBoxIdentity"`
+	ChargeBoxIdentity toSendIdentity
+}
+
+type toSendIdentity struct {
+	// its namespace is the one of the service that is called
+	XMLName xml.Name
+	Value   string `xml:",chardata"`
 }
 
 type toSendBody struct {
-- 
2.43.0


From d91d4effb3587a1d0cd6377718e58cb8300e5f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 21/38] fix: keep empty texts in SOAP lists

---
 messages/v1x/csreq/messages.go  | 2 +-
 messages/v1x/csresp/messages.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/messages/v1x/csreq/messages.go b/messages/v1x/csreq/messages.go
index a50b1ed..2da3ad1 100644
--- a/messages/v1x/csreq/messages.go
+++ b/messages/v1x/csreq/messages.go
@@ -105,7 +105,7 @@ type GetConfiguration struct {
 	centralSystemRequest
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ getConfigurationRequest"`
 
-	Key []string `json:"key,omitempty" xml:"key,omitempty"`
+	Key []string `json:"key,omitempty" xml:"key"`
 }
 
 // GetDiagnostics
diff --git a/messages/v1x/csresp/messages.go b/messages/v1x/csresp/messages.go
index 3f299a4..53c8008 100644
--- a/messages/v1x/csresp/messages.go
+++ b/messages/v1x/csresp/messages.go
@@ -94,7 +94,7 @@ type GetConfiguration struct {
 	XMLName xml.Name `json:"-" xml:"urn://Ocpp/Cp/2012/06/ getConfigurationResponse"`
 
 	ConfigurationKey []*ConfigurationKeyItems `json:"configurationKey,omitempty" xml:"configurationKey,omitempty"`
-	UnknownKey       []string                 `json:"unknownKey,omitempty" xml:"unknownKey,omitempty"`
+	UnknownKey       []string                 `json:"unknownKey,omitempty" xml:"unknownKey"`
 }
 
 // GetDiagnostics
-- 
2.43.0


From 2d8d0e6d1f3d6960e7d791f32d02904f08274335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 22/38] fix: send whole numbers in SOAP without an exponent

---
 messages/v1x/cpresp/xml_encode.go | 23 +++++++++++++++++++++++
 messages/v1x/csreq/xml_encode.go  | 24 ++++++++++++++++++++++++
 2 files changed, 47 insertions(+)
 create mode 100644 messages/v1x/cpresp/xml_encode.go
 create mode 100644 messages/v1x/csreq/xml_encode.go

diff --git a/messages/v1x/cpresp/xml_encode.go b/messages/v1x/cpresp/xml_encode.go
new file mode 100644
index 0000000..dc2bbcb
--- /dev/null
+++ b/messages/v1x/cpresp/xml_encode.go
@@ -0,0 +1,23 @@
+package cpresp
+
+import (
+	"encoding/xml"
+	"strconv"
+	"time"
+)
+
+// integer is sent without an exponent, which xs:int doesn't allow
+type integer float64
+
+func (i integer) MarshalText() ([]byte, error) {
+	return strconv.AppendFloat(nil, float64(i), 'f', -1, 64), nil
+}
+
+func (m BootNotification) MarshalXML(e *xml.Encoder, _ xml.StartElement) error {
+	return e.Encode(struct {
+		XMLName     xml.Name  `xml:"urn://Ocpp/Cs/2012/06/ bootNotificationResponse"`
+		Status      string    `xml:"status"`
+		CurrentTime time.Time `xml:"currentTime"`
+		Interval    integer   `xml:"heartbeatInterval"`
+	}{Status: m.Status, CurrentTime: m.CurrentTime, Interval: integer(m.Interval)})
+}
diff --git a/messages/v1x/csreq/xml_encode.go b/messages/v1x/csreq/xml_encode.go
new file mode 100644
index 0000000..2fa4a4a
--- /dev/null
+++ b/messages/v1x/csreq/xml_encode.go
@@ -0,0 +1,24 @@
+package csreq
+
+import (
+	"encoding/xml"
+	"strconv"
+	"time"
+)
+
+// integer is sent without an exponent, which xs:int doesn't allow
+type integer float64
+
+func (i integer) MarshalText() ([]byte, error) {
+	return strconv.AppendFloat(nil, float64(i), 'f', -1, 64), nil
+}
+
+func (m UpdateFirmware) MarshalXML(e *xml.Encoder, _ xml.StartElement) error {
+	return e.Encode(struct {
+		XMLName       xml.Name  `xml:"urn://Ocpp/Cp/2012/06/ updateFirmwareRequest"`
+		RetrieveDate  time.Time `xml:"retrieveDate"`
+		Location      string    `xml:"location"`
+		Retries       integer   `xml:"retries,omitempty"`
+		RetryInterval integer   `xml:"retryInterval,omitempty"`
+	}{RetrieveDate: m.RetrieveDate, Location: m.Location, Retries: integer(m.Retries), RetryInterval: integer(m.RetryInterval)})
+}
-- 
2.43.0


From 1743c9838c1df9111488a1795f65774616aaac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 23/38] fix: keep every values element of transactionData in
 SOAP

---
 messages/v1x/cpreq/xml_decode.go | 40 ++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)
 create mode 100644 messages/v1x/cpreq/xml_decode.go

diff --git a/messages/v1x/cpreq/xml_decode.go b/messages/v1x/cpreq/xml_decode.go
new file mode 100644
index 0000000..c95a8c4
--- /dev/null
+++ b/messages/v1x/cpreq/xml_decode.go
@@ -0,0 +1,40 @@
+package cpreq
+
+import (
+	"encoding/xml"
+	"time"
+)
+
+// UnmarshalXML makes an item of every values element, of which
+// a transactionData element of OCPP v1.5 may have many
+func (m *StopTransaction) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	var received struct {
+		XMLName         xml.Name  `xml:"urn://Ocpp/Cs/2012/06/ stopTransactionRequest"`
+		TransactionId   int       `xml:"transactionId"`
+		IdTag           string    `xml:"idTag"`
+		Timestamp       time.Time `xml:"timestamp"`
+		MeterStop       int       `xml:"meterStop"`
+		Reason          string    `xml:"reason"`
+		TransactionData []struct {
+			Values []*MeterValueItems `xml:"values"`
+		} `xml:"transactionData"`
+	}
+	if err := d.DecodeElement(&received, &start); err != nil {
+		return err
+	}
+	*m = StopTransaction{
+		XMLName:       received.XMLName,
+		TransactionId: received.TransactionId,
+		IdTag:         received.IdTag,
+		Timestamp:     received.Timestamp,
+		MeterStop:     received.MeterStop,
+		Reason:        received.Reason,
+	}
+	for _, data := range received.TransactionData {
+		for _, values := range data.Values {
+			item := TransactionDataItems(*values)
+			m.TransactionData = append(m.TransactionData, &item)
+		}
+	}
+	return nil
+}
-- 
2.43.0


From e5be7922092f5728a1d42da671503bd5cac5cc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 24/38] fix: don't leave a goroutine behind for every request
 read from a websocket

---
 ws/conn.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index 32bdca8..497b6dd 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -179,7 +179,8 @@ func UnmarshalMessage(msg []byte) (Message, error) {
 }
 
 func (c *Conn) ReadMessageAsync() <-chan error {
-	readMessageResultChannel := make(chan error)
+	// the result may never be received, e.g. when a request was read
+	readMessageResultChannel := make(chan error, 1)
 	go func() {
 		readMessageResultChannel <- c.ReadMessage()
 	}()
@@ -220,10 +221,13 @@ func (c *Conn) ReadMessage() error {
 			msg := NewCallErrorMessage(msg.ID(), wserr, "on handling message")
 			return c.sendMessage(msg)
 		}
-		c.requests <- struct {
+		select {
+		case c.requests <- struct {
 			messages.Request
 			MessageID
-		}{req, msg.ID()}
+		}{req, msg.ID()}:
+		case <-c.ctx.Done(): // nobody will handle it anymore
+		}
 	case *CallResultMessage:
 		var resp messages.Response
 		resp, wserr = c.callResultToResponse(sentRequest, m)
-- 
2.43.0


From 7d99b131819fd9b521f2b1b02917daca9aebced7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 25/38] fix: keep all open connections of a charge point
 registered, and only those

---
 cs/cs.go | 140 ++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 96 insertions(+), 44 deletions(-)

diff --git a/cs/cs.go b/cs/cs.go
index 200d350..8be83c2 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -47,11 +47,11 @@ type CentralSystem interface {
 }
 
 type centralSystem struct {
-	conns map[string]*ws.Conn
-	// used to symbolize if the connection is connected
+	// connections of each charge point, in the order they were established
+	conns map[string][]*ws.Conn
+	// closed when the charge point connects,
+	// only there while it is being waited for
 	connChans       map[string]chan struct{}
-	connsConnected  map[string]bool
-	connsCount      map[string]int
 	connMux         sync.Mutex
 	connListener    ChargePointConnectionListener
 	disconnListener ChargePointConnectionListener
@@ -59,10 +59,8 @@ type centralSystem struct {
 
 func New() CentralSystem {
 	return &centralSystem{
-		conns:           make(map[string]*ws.Conn, 0),
+		conns:           make(map[string][]*ws.Conn, 0),
 		connChans:       make(map[string]chan struct{}, 0),
-		connsCount:      make(map[string]int, 0),
-		connsConnected:  make(map[string]bool, 0),
 		connListener:    func(cpID string) {},
 		disconnListener: func(cpID string) {},
 	}
@@ -80,7 +78,7 @@ func (csys *centralSystem) Run(port string, cphandler ChargePointMessageHandler)
 				`<h1>OCPP Central System</h1>
 				<p>currently connected with %d OCPP-J stations, and more OCPP-S stations</p>
 				<i>Central System using <a href="https://github.com/voltbras/go-ocpp"/>https://github.com/voltbras/go-ocpp</i>`,
-				len(csys.conns),
+				csys.countConnected(),
 			)
 			w.Write([]byte(body))
 		} else {
@@ -93,7 +91,7 @@ func (csys *centralSystem) Run(port string, cphandler ChargePointMessageHandler)
 }
 
 func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Request, cphandler ChargePointMessageHandler) {
-	log.Debug("Current WS connections map: %v", csys.conns)
+	log.Debug("Currently connected WS stations: %d", csys.countConnected())
 	cpID := strings.TrimPrefix(r.URL.Path, "/")
 
 	rawReq, _ := httputil.DumpRequest(r, true)
@@ -105,35 +103,16 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 		return
 	}
 
-	csys.connMux.Lock()
-	csys.conns[cpID] = conn
-	csys.connsCount[cpID]++
-	if csys.connChans[cpID] == nil {
-		csys.connChans[cpID] = make(chan struct{})
-	}
-	if !csys.connsConnected[cpID] {
-		close(csys.connChans[cpID])
-	}
-	csys.connsConnected[cpID] = true
-	csys.connMux.Unlock()
+	csys.addConn(cpID, conn)
 
 	log.Debug("Connected with %s", cpID)
-	go csys.connListener(cpID)
+	go csys.listener(true)(cpID)
 
 	defer func() {
 		conn.Close()
 		log.Debug("Closed connection of: %s", cpID)
-		go csys.disconnListener(cpID)
-		csys.connMux.Lock()
-		csys.connsCount[cpID]--
-		// if the same CP connected more times before we do the
-		// connection cleanup, don't remove the connection reference
-		if csys.connsCount[cpID] == 0 {
-			delete(csys.conns, cpID)
-			csys.connChans[cpID] = make(chan struct{})
-			csys.connsConnected[cpID] = false
-		}
-		csys.connMux.Unlock()
+		csys.removeConn(cpID, conn)
+		go csys.listener(false)(cpID)
 	}()
 
 	for {
@@ -196,10 +175,8 @@ func (csys *centralSystem) GetServiceOf(cpID string, version ocpp.Version, url s
 		}), nil
 	}
 	if version == ocpp.V16 {
-		csys.connMux.Lock()
-		conn := csys.conns[cpID]
-		csys.connMux.Unlock()
-		if conn == nil { // TODO: or conn closed
+		conn := csys.currentConn(cpID)
+		if conn == nil {
 			return nil, errors.New("no connection to this charge point")
 		}
 		return service.NewChargePointJSON(conn), nil
@@ -207,21 +184,92 @@ func (csys *centralSystem) GetServiceOf(cpID string, version ocpp.Version, url s
 	return nil, errors.New("charge point has no configured OCPP version(1.5/1.6)")
 }
 
+// addConn registers an established connection
+func (csys *centralSystem) addConn(cpID string, conn *ws.Conn) {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
+	csys.conns[cpID] = append(csys.conns[cpID], conn)
+	if connCh := csys.connChans[cpID]; connCh != nil {
+		close(connCh)
+		delete(csys.connChans, cpID)
+	}
+}
+
+// removeConn forgets a closed connection, other connections
+// of the same charge point are left as they are
+func (csys *centralSystem) removeConn(cpID string, conn *ws.Conn) {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
+	var conns []*ws.Conn
+	for _, c := range csys.conns[cpID] {
+		if c != conn {
+			conns = append(conns, c)
+		}
+	}
+	if len(conns) == 0 {
+		delete(csys.conns, cpID)
+		return
+	}
+	csys.conns[cpID] = conns
+}
+
+// currentConn is the most recently established connection
+// of the charge point that is open, nil if there is none
+func (csys *centralSystem) currentConn(cpID string) *ws.Conn {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
+	return newestOpen(csys.conns[cpID])
+}
+
+func (csys *centralSystem) countConnected() int {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
+	count := 0
+	for _, conns := range csys.conns {
+		if newestOpen(conns) != nil {
+			count++
+		}
+	}
+	return count
+}
+
+func newestOpen(conns []*ws.Conn) *ws.Conn {
+	for i := len(conns) - 1; i >= 0; i-- {
+		select {
+		case <-conns[i].WaitClose():
+			// closed, but not removed yet
+		default:
+			return conns[i]
+		}
+	}
+	return nil
+}
+
+func (csys *centralSystem) listener(connected bool) ChargePointConnectionListener {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
+	if connected {
+		return csys.connListener
+	}
+	return csys.disconnListener
+}
+
 func (csys *centralSystem) SetChargePointConnectionListener(f ChargePointConnectionListener) {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
 	csys.connListener = f
 }
 
 func (csys *centralSystem) SetChargePointDisconnectionListener(f ChargePointConnectionListener) {
+	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
 	csys.disconnListener = f
 }
 
 func (csys *centralSystem) WaitDisconnect(cpID string) <-chan struct{} {
-	csys.connMux.Lock()
-	conn := csys.conns[cpID]
-	csys.connMux.Unlock()
-
-	ch := make(chan struct{})
+	conn := csys.currentConn(cpID)
 	if conn == nil {
+		ch := make(chan struct{})
 		close(ch)
 		return ch
 	}
@@ -230,10 +278,14 @@ func (csys *centralSystem) WaitDisconnect(cpID string) <-chan struct{} {
 
 func (csys *centralSystem) WaitConnect(cpID string) <-chan struct{} {
 	csys.connMux.Lock()
+	defer csys.connMux.Unlock()
+	if newestOpen(csys.conns[cpID]) != nil {
+		ch := make(chan struct{})
+		close(ch)
+		return ch
+	}
 	if csys.connChans[cpID] == nil {
 		csys.connChans[cpID] = make(chan struct{})
 	}
-	connCh := csys.connChans[cpID]
-	csys.connMux.Unlock()
-	return connCh
+	return csys.connChans[cpID]
 }
-- 
2.43.0


From 422ac683c5bb8988db7b58c6170c92bb176cd2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:04 +0000
Subject: [PATCH 26/38] fix: escape the charge point identity in the URL a
 charge point dials

---
 ws/conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ws/conn.go b/ws/conn.go
index 497b6dd..f1559a2 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"net/http"
+	"net/url"
 	"sync"
 	"time"
 
@@ -59,7 +60,8 @@ func Dial(identity, csURL string, version ocpp.Version) (*Conn, error) {
 	dialer := websocket.Dialer{
 		Subprotocols: []string{ocppVersionToProtocol(version)},
 	}
-	socket, _, err := dialer.Dial(csURL+"/"+identity, http.Header{})
+	path := (&url.URL{Path: identity}).EscapedPath()
+	socket, _, err := dialer.Dial(csURL+"/"+path, http.Header{})
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d1ed3942910f67815f436249b35a411f5fd2e0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 27/38] fix: stop serving requests when the context of a SOAP
 charge point is done

---
 cp/soap.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cp/soap.go b/cp/soap.go
index 4a791dd..a888003 100644
--- a/cp/soap.go
+++ b/cp/soap.go
@@ -15,13 +15,14 @@ func handleSoap(ctx context.Context, port string, cshandler CentralSystemMessage
 	handler := soapHandler{cshandler}
 	server := &http.Server{Addr: port, Handler: handler}
 
-	serverErrorCh := make(chan error)
+	serverErrorCh := make(chan error, 1)
 	go func() {
 		serverErrorCh <- server.ListenAndServe()
 	}()
 	select {
 	case <-ctx.Done():
-		return nil
+		// requests already received are still answered
+		return server.Shutdown(context.Background())
 	case err := <-serverErrorCh:
 		return err
 	}
-- 
2.43.0


From ac10c32e4183f1c6260e4d43d0d2573b8ba262aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 28/38] fix: let a websocket charge point stop reconnecting,
 and synchronise its connection

---
 cp/cp.go   | 17 +++++++++++--
 cp/json.go | 72 +++++++++++++++++++++++++++++++++++++-----------------
 2 files changed, 65 insertions(+), 24 deletions(-)

diff --git a/cp/cp.go b/cp/cp.go
index 79cb293..920a846 100644
--- a/cp/cp.go
+++ b/cp/cp.go
@@ -4,9 +4,12 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"sync"
 
 	"github.com/voltbras/go-ocpp"
 	"github.com/voltbras/go-ocpp/internal/service"
+	"github.com/voltbras/go-ocpp/messages/v1x/cpreq"
+	"github.com/voltbras/go-ocpp/messages/v1x/cpresp"
 	"github.com/voltbras/go-ocpp/messages/v1x/csreq"
 	"github.com/voltbras/go-ocpp/messages/v1x/csresp"
 	"github.com/voltbras/go-ocpp/soap"
@@ -34,7 +37,10 @@ type chargePoint struct {
 	transport        ocpp.Transport
 	conn             *ws.Conn
 	ctx              context.Context
-	connectedChan    chan struct{}
+	// closed when connecting, only there while it is being waited for
+	connectedChan chan struct{}
+	// connMux guards conn, connectedChan and the service using conn
+	connMux sync.Mutex
 }
 
 // Run the charge point on the given port
@@ -46,7 +52,6 @@ func New(ctx context.Context, identity, csURL string, version ocpp.Version, tran
 		version:          version,
 		transport:        transport,
 		ctx:              ctx,
-		connectedChan:    make(chan struct{}),
 	}
 	if transport == ocpp.JSON {
 		err := cp.getNewWebsocketConnection()
@@ -68,3 +73,11 @@ func New(ctx context.Context, identity, csURL string, version ocpp.Version, tran
 func (cp *chargePoint) Identity() string {
 	return cp.identity
 }
+
+// Send to the central system, over the current connection
+func (cp *chargePoint) Send(req cpreq.ChargePointRequest) (cpresp.ChargePointResponse, error) {
+	cp.connMux.Lock()
+	csService := cp.CentralSystem
+	cp.connMux.Unlock()
+	return csService.Send(req)
+}
diff --git a/cp/json.go b/cp/json.go
index 7c51fd0..81d1f65 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -14,56 +14,69 @@ const (
 )
 
 func (cp *chargePoint) Connection() *ws.Conn {
+	cp.connMux.Lock()
+	defer cp.connMux.Unlock()
 	return cp.conn
 }
 
-// tries to reach CS, if succeeded handle
 func (cp *chargePoint) getNewWebsocketConnection() error {
 	conn, err := ws.Dial(cp.identity, cp.centralSystemURL, cp.version)
 	if err != nil {
 		return err
 	}
+	cp.connMux.Lock()
+	defer cp.connMux.Unlock()
 	cp.conn = conn
 	cp.CentralSystem = service.NewCentralSystemJSON(cp.conn)
-	// closing the channel will make the reads non blocking
-	close(cp.connectedChan)
+	if cp.connectedChan != nil {
+		// closing the channel will make the reads non blocking
+		close(cp.connectedChan)
+		cp.connectedChan = nil
+	}
 	return nil
 }
 
+// reconnect tries to connect until it is established,
+// it gives up only when the context is done
+func (cp *chargePoint) reconnect() {
+	for cp.ctx.Err() == nil {
+		err := cp.getNewWebsocketConnection()
+		if err == nil {
+			return
+		}
+		log.Error("On restarting connection with Central System: %w", err)
+		select {
+		case <-cp.ctx.Done():
+		case <-time.After(websocketConnectionRetryInterval):
+		}
+	}
+}
+
 func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageHandler) {
 	for {
+		conn := cp.Connection()
 		select {
 		case <-cp.ctx.Done():
-			cp.conn.Close()
+			conn.Close()
 			return
-		case <-cp.conn.WaitClose():
+		case <-conn.WaitClose():
 			log.Debug("Closed connection of Central System")
-			cp.connectedChan = make(chan struct{})
-			// try to connect until it is established
-			for {
-				err := cp.getNewWebsocketConnection()
-				if err != nil {
-					log.Error("On restarting connection with Central System: %w", err)
-					<-time.After(websocketConnectionRetryInterval)
-				} else {
-					break
-				}
-			}
-		case <-cp.conn.ReadMessageAsync():
+			cp.reconnect()
+		case <-conn.ReadMessageAsync():
 			continue
-		case req := <-cp.conn.Requests():
+		case req := <-conn.Requests():
 			cprequest, ok := req.Request.(csreq.CentralSystemRequest)
 			if !ok {
 				log.Error(csreq.ErrorNotCentralSystemRequest.Error())
 				// the central system is waiting for an answer
-				err := cp.conn.SendResponse(req.MessageID, nil, csreq.ErrorNotCentralSystemRequest)
+				err := conn.SendResponse(req.MessageID, nil, csreq.ErrorNotCentralSystemRequest)
 				if err != nil {
 					log.Error(err.Error())
 				}
 				continue
 			}
 			cpresponse, err := cshandler(cprequest)
-			err = cp.conn.SendResponse(req.MessageID, cpresponse, err)
+			err = conn.SendResponse(req.MessageID, cpresponse, err)
 			if err != nil {
 				log.Error(err.Error())
 			}
@@ -72,9 +85,24 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 }
 
 func (cp *chargePoint) WaitConnect() <-chan struct{} {
-	return cp.connectedChan
+	cp.connMux.Lock()
+	defer cp.connMux.Unlock()
+	if cp.connectedChan == nil {
+		cp.connectedChan = make(chan struct{})
+	}
+	connCh := cp.connectedChan
+	if cp.conn != nil {
+		select {
+		case <-cp.conn.WaitClose():
+			// a new connection is being waited for
+		default:
+			close(connCh)
+			cp.connectedChan = nil
+		}
+	}
+	return connCh
 }
 
 func (cp *chargePoint) WaitDisconnect() <-chan struct{} {
-	return cp.conn.WaitClose()
+	return cp.Connection().WaitClose()
 }
-- 
2.43.0


From 1ba12ed0059cb18a0c23b952650d8d5369f13b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 29/38] fix: only confirm the websocket subprotocol a charge
 point offers

---
 ws/conn.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index f1559a2..439cf62 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"net/http"
 	"net/url"
+	"strings"
 	"sync"
 	"time"
 
@@ -86,10 +87,23 @@ func ocppVersionToProtocol(version ocpp.Version) string {
 	return ""
 }
 
+// selectProtocol is the first supported protocol that the client offers, empty if there is none
+func selectProtocol(r *http.Request, supportedVersions []ocpp.Version) string {
+	offered := strings.Split(strings.Join(r.Header["Sec-Websocket-Protocol"], ","), ",")
+	for _, v := range supportedVersions {
+		for _, o := range offered {
+			if strings.TrimSpace(o) == ocppVersionToProtocol(v) {
+				return ocppVersionToProtocol(v)
+			}
+		}
+	}
+	return ""
+}
+
 func Handshake(w http.ResponseWriter, r *http.Request, supportedVersions []ocpp.Version) (*Conn, error) {
 	upgraderHeader := http.Header{}
-	for _, v := range supportedVersions {
-		upgraderHeader.Add("Sec-WebSocket-Protocol", ocppVersionToProtocol(v))
+	if protocol := selectProtocol(r, supportedVersions); protocol != "" {
+		upgraderHeader.Add("Sec-WebSocket-Protocol", protocol)
 	}
 	socket, err := upgrader.Upgrade(w, r, upgraderHeader)
 	conn := newConn(socket)
-- 
2.43.0


From 72a0f78e6f62e641736a77d1b998ed9accb20d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:10 +0000
Subject: [PATCH 30/38] fix: don't read from a closed connection when a charge
 point is cancelled

---
 cp/json.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cp/json.go b/cp/json.go
index 81d1f65..f21ccfb 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -62,6 +62,11 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 		case <-conn.WaitClose():
 			log.Debug("Closed connection of Central System")
 			cp.reconnect()
+			if cp.ctx.Err() != nil {
+				// there may be no new connection to go on with
+				cp.Connection().Close()
+				return
+			}
 		case <-conn.ReadMessageAsync():
 			continue
 		case req := <-conn.Requests():
-- 
2.43.0


From 99bd127c5b88f115155ba6fc4ab79cfb3862a5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:54 +0000
Subject: [PATCH 31/38] fix: give up sending to a peer that does not read

A peer that stops reading made the writer of its connection wait forever,
and with it everybody who sends over that connection: SendRequest did not
return with the timeout of a request, as that was only started after writing.
---
 ws/conn.go | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/ws/conn.go b/ws/conn.go
index 439cf62..5282d0d 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"net"
 	"net/http"
 	"net/url"
 	"strings"
@@ -111,9 +112,25 @@ func Handshake(w http.ResponseWriter, r *http.Request, supportedVersions []ocpp.
 }
 
 func (c *Conn) WriteJSON(data interface{}) error {
+	deadline := time.Now().Add(internal.DefaultRequestTimeout)
+	return c.write(deadline, func() error { return c.Conn.WriteJSON(data) })
+}
+
+// write gives up at the deadline, as the peer may have stopped reading
+func (c *Conn) write(deadline time.Time, f func() error) error {
 	c.sendMux.Lock()
 	defer c.sendMux.Unlock()
-	return c.Conn.WriteJSON(data)
+	if !time.Now().Before(deadline) {
+		return errors.New("timeout exceeded before sending")
+	}
+	c.Conn.SetWriteDeadline(deadline)
+	err := f()
+	var netErr net.Error
+	if errors.As(err, &netErr) && netErr.Timeout() {
+		// the message may be half written, nothing can be sent anymore
+		c.Close()
+	}
+	return err
 }
 
 func (c *Conn) Close() error {
@@ -235,7 +252,7 @@ func (c *Conn) ReadMessage() error {
 		req, wserr = c.callToRequest(m)
 		if wserr != Nil {
 			msg := NewCallErrorMessage(msg.ID(), wserr, "on handling message")
-			return c.sendMessage(msg)
+			return c.sendMessage(msg, time.Now().Add(internal.DefaultRequestTimeout))
 		}
 		select {
 		case c.requests <- struct {
@@ -289,31 +306,29 @@ func (c *Conn) callResultToResponse(request messages.Request, result *CallResult
 	return resp, Nil
 }
 func (c *Conn) SendResponse(id MessageID, response messages.Response, err error) error {
+	deadline := time.Now().Add(internal.DefaultRequestTimeout)
 	msg := unmarshalResponse(id, response, err)
 	bts, err := json.Marshal(msg)
 	if err != nil {
 		err = fmt.Errorf("on marshalling message: %w", err)
 		// the peer is waiting for an answer, let it know there is none
-		if sendErr := c.sendMessage(NewCallErrorMessage(id, InternalError, err.Error())); sendErr != nil {
+		if sendErr := c.sendMessage(NewCallErrorMessage(id, InternalError, err.Error()), deadline); sendErr != nil {
 			return sendErr
 		}
 		return err
 	}
-	return c.sendBytes(bts)
+	return c.sendBytes(bts, deadline)
 }
-func (c *Conn) sendMessage(msg Message) error {
+func (c *Conn) sendMessage(msg Message, deadline time.Time) error {
 	bts, err := json.Marshal(msg)
 	if err != nil {
 		return fmt.Errorf("on marshalling message: %w", err)
 	}
-	return c.sendBytes(bts)
+	return c.sendBytes(bts, deadline)
 }
-func (c *Conn) sendBytes(bts []byte) error {
-	c.sendMux.Lock()
-	defer c.sendMux.Unlock()
-
+func (c *Conn) sendBytes(bts []byte, deadline time.Time) error {
 	log.Debug("Sending message [raw]: %v", string(bts))
-	err := c.Conn.WriteMessage(websocket.TextMessage, bts)
+	err := c.write(deadline, func() error { return c.Conn.WriteMessage(websocket.TextMessage, bts) })
 	if err != nil {
 		return fmt.Errorf("on sending message: %w", err)
 	}
@@ -359,11 +374,12 @@ func (c *Conn) SendRequest(request messages.Request) (messages.Response, error)
 	responses := c.registerSent(id, request)
 	// forget the request when no answer came
 	defer c.takeSent(id)
-	err = c.sendMessage(msg)
+	deadline := time.Now().Add(internal.DefaultRequestTimeout)
+	err = c.sendMessage(msg, deadline)
 	if err != nil {
 		return nil, err
 	}
-	timeout := time.NewTimer(internal.DefaultRequestTimeout)
+	timeout := time.NewTimer(time.Until(deadline))
 	defer timeout.Stop()
 	select {
 	case callResponse := <-responses:
-- 
2.43.0


From 61c3fbac30eb9121c1f192034ebdcb42fa0e8532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:28 +0000
Subject: [PATCH 32/38] fix: give up dialling a central system that does not
 answer

A central system that accepts connections but never answers the handshake
kept the charge point waiting forever, it did not try again.
---
 ws/conn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ws/conn.go b/ws/conn.go
index 5282d0d..3e7d173 100644
--- a/ws/conn.go
+++ b/ws/conn.go
@@ -60,7 +60,8 @@ func newConn(socket *websocket.Conn) *Conn {
 
 func Dial(identity, csURL string, version ocpp.Version) (*Conn, error) {
 	dialer := websocket.Dialer{
-		Subprotocols: []string{ocppVersionToProtocol(version)},
+		Subprotocols:     []string{ocppVersionToProtocol(version)},
+		HandshakeTimeout: internal.DefaultRequestTimeout,
 	}
 	path := (&url.URL{Path: identity}).EscapedPath()
 	socket, _, err := dialer.Dial(csURL+"/"+path, http.Header{})
-- 
2.43.0


From 86b8fc62548732da49364fd0d0616adb687c6757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:54 +0000
Subject: [PATCH 33/38] fix: listen before a SOAP charge point is returned

---
 cp/cp.go   | 12 +++++++++++-
 cp/soap.go |  7 ++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/cp/cp.go b/cp/cp.go
index 920a846..e27ef87 100644
--- a/cp/cp.go
+++ b/cp/cp.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"net"
 	"sync"
 
 	"github.com/voltbras/go-ocpp"
@@ -65,7 +66,16 @@ func New(ctx context.Context, identity, csURL string, version ocpp.Version, tran
 		if port == nil {
 			return nil, errors.New("port must be set when running a SOAP ChargePoint")
 		}
-		go handleSoap(cp.ctx, *port, cshandler)
+		addr := *port
+		if addr == "" {
+			addr = ":http"
+		}
+		// requests are accepted as soon as the charge point is returned
+		listener, err := net.Listen("tcp", addr)
+		if err != nil {
+			return nil, fmt.Errorf("could not listen to the central system: %w", err)
+		}
+		go handleSoap(cp.ctx, listener, cshandler)
 	}
 	return cp, nil
 }
diff --git a/cp/soap.go b/cp/soap.go
index a888003..a4b94f0 100644
--- a/cp/soap.go
+++ b/cp/soap.go
@@ -3,6 +3,7 @@ package cp
 import (
 	"context"
 	"errors"
+	"net"
 	"net/http"
 
 	"github.com/voltbras/go-ocpp/internal/log"
@@ -11,13 +12,13 @@ import (
 	"github.com/voltbras/go-ocpp/soap"
 )
 
-func handleSoap(ctx context.Context, port string, cshandler CentralSystemMessageHandler) error {
+func handleSoap(ctx context.Context, listener net.Listener, cshandler CentralSystemMessageHandler) error {
 	handler := soapHandler{cshandler}
-	server := &http.Server{Addr: port, Handler: handler}
+	server := &http.Server{Handler: handler}
 
 	serverErrorCh := make(chan error, 1)
 	go func() {
-		serverErrorCh <- server.ListenAndServe()
+		serverErrorCh <- server.Serve(listener)
 	}()
 	select {
 	case <-ctx.Done():
-- 
2.43.0


From bb90be025cb395aaaa85a51a4d25e0896f3339ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:25 +0000
Subject: [PATCH 34/38] fix: log errors as they are

The text of an error was used as a format.
---
 cp/json.go          | 6 +++---
 cs/cs.go            | 6 +++---
 internal/log/log.go | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/cp/json.go b/cp/json.go
index f21ccfb..b5dc0ec 100644
--- a/cp/json.go
+++ b/cp/json.go
@@ -72,18 +72,18 @@ func (cp *chargePoint) handleWebsocketConnection(cshandler CentralSystemMessageH
 		case req := <-conn.Requests():
 			cprequest, ok := req.Request.(csreq.CentralSystemRequest)
 			if !ok {
-				log.Error(csreq.ErrorNotCentralSystemRequest.Error())
+				log.Error("%w", csreq.ErrorNotCentralSystemRequest)
 				// the central system is waiting for an answer
 				err := conn.SendResponse(req.MessageID, nil, csreq.ErrorNotCentralSystemRequest)
 				if err != nil {
-					log.Error(err.Error())
+					log.Error("%w", err)
 				}
 				continue
 			}
 			cpresponse, err := cshandler(cprequest)
 			err = conn.SendResponse(req.MessageID, cpresponse, err)
 			if err != nil {
-				log.Error(err.Error())
+				log.Error("%w", err)
 			}
 		}
 	}
diff --git a/cs/cs.go b/cs/cs.go
index 8be83c2..3dec33c 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -120,11 +120,11 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 		case req := <-conn.Requests():
 			cprequest, ok := req.Request.(cpreq.ChargePointRequest)
 			if !ok {
-				log.Error(cpreq.ErrorNotChargePointRequest.Error())
+				log.Error("%w", cpreq.ErrorNotChargePointRequest)
 				// the charge point is waiting for an answer
 				err := conn.SendResponse(req.MessageID, nil, cpreq.ErrorNotChargePointRequest)
 				if err != nil {
-					log.Error(err.Error())
+					log.Error("%w", err)
 				}
 				continue
 			}
@@ -134,7 +134,7 @@ func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Reques
 			})
 			err = conn.SendResponse(req.MessageID, cpresponse, err)
 			if err != nil {
-				log.Error(err.Error())
+				log.Error("%w", err)
 			}
 		case <-conn.WaitClose():
 			return
diff --git a/internal/log/log.go b/internal/log/log.go
index 8b065d4..9125b4f 100644
--- a/internal/log/log.go
+++ b/internal/log/log.go
@@ -19,5 +19,5 @@ func Debug(format string, v ...interface{}) {
 	debugLog.Printf(format, v...)
 }
 func Error(format string, v ...interface{}) {
-	errorLog.Printf(fmt.Errorf(format, v...).Error())
+	errorLog.Printf("%s", fmt.Errorf(format, v...).Error())
 }
\ No newline at end of file
-- 
2.43.0


From aa6d8104e28e01a529a79ae18574ef60ae1a05ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:37 +0000
Subject: [PATCH 35/38] fix: running a central system can be tried again after
 it has failed

---
 cs/cs.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cs/cs.go b/cs/cs.go
index 3dec33c..3f0cc35 100644
--- a/cs/cs.go
+++ b/cs/cs.go
@@ -3,6 +3,7 @@ package cs
 import (
 	"errors"
 	"fmt"
+	"net"
 	"net/http"
 	"net/http/httputil"
 	"strings"
@@ -67,6 +68,16 @@ func New() CentralSystem {
 }
 
 func (csys *centralSystem) Run(port string, cphandler ChargePointMessageHandler) error {
+	addr := port
+	if addr == "" {
+		addr = ":http"
+	}
+	// nothing is registered if the central system can't be run,
+	// so that it can be tried again
+	listener, err := net.Listen("tcp", addr)
+	if err != nil {
+		return err
+	}
 	http.HandleFunc("/", func(w http.ResponseWriter, r *http.Request) {
 		if ws.IsWebSocketUpgrade(r) {
 			csys.handleWebsocket(w, r, cphandler)
@@ -87,7 +98,7 @@ func (csys *centralSystem) Run(port string, cphandler ChargePointMessageHandler)
 
 	})
 	log.Debug("Central system running on port: %s", port)
-	return http.ListenAndServe(port, nil)
+	return http.Serve(listener, nil)
 }
 
 func (csys *centralSystem) handleWebsocket(w http.ResponseWriter, r *http.Request, cphandler ChargePointMessageHandler) {
-- 
2.43.0


From 856b7b22673839dd1cbddd26b2712d5bef50112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:38 +0000
Subject: [PATCH 36/38] fix: no charge point is made for an unknown transport

---
 cp/cp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cp/cp.go b/cp/cp.go
index e27ef87..ff93793 100644
--- a/cp/cp.go
+++ b/cp/cp.go
@@ -47,6 +47,9 @@ type chargePoint struct {
 // Run the charge point on the given port
 // and handles each incoming CentralSystemRequest
 func New(ctx context.Context, identity, csURL string, version ocpp.Version, transport ocpp.Transport, port *string, cshandler CentralSystemMessageHandler) (*chargePoint, error) {
+	if transport != ocpp.JSON && transport != ocpp.SOAP {
+		return nil, fmt.Errorf("unknown transport: %q", transport)
+	}
 	cp := &chargePoint{
 		identity:         identity,
 		centralSystemURL: csURL,
-- 
2.43.0


From d66715d8743c93e5852052931286affa669190fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:13 +0000
Subject: [PATCH 37/38] fix: send empty required lists of OCPP-J payloads as
 empty lists

---
 messages/v1x/cpreq/json_encode.go  | 12 +++++++++---
 messages/v1x/csreq/json_encode.go  |  4 +++-
 messages/v1x/csresp/json_encode.go |  4 +++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/messages/v1x/cpreq/json_encode.go b/messages/v1x/cpreq/json_encode.go
index 581bf36..8d4384b 100644
--- a/messages/v1x/cpreq/json_encode.go
+++ b/messages/v1x/cpreq/json_encode.go
@@ -459,7 +459,9 @@ func (m *MeterValueItems) MarshalJSON() ([]byte, error) {
 		buf.WriteString(",")
 	}
 	buf.WriteString("\"sampledValue\": ")
-	if tmp, err := json.Marshal(m.SampledValues); err != nil {
+	if m.SampledValues == nil {
+		buf.WriteString("[]") // required, null isn't allowed
+	} else if tmp, err := json.Marshal(m.SampledValues); err != nil {
 		return nil, err
 	} else {
 		buf.Write(tmp)
@@ -541,7 +543,9 @@ func (m *MeterValues) MarshalJSON() ([]byte, error) {
 		buf.WriteString(",")
 	}
 	buf.WriteString("\"meterValue\": ")
-	if tmp, err := json.Marshal(m.MeterValue); err != nil {
+	if m.MeterValue == nil {
+		buf.WriteString("[]") // required, null isn't allowed
+	} else if tmp, err := json.Marshal(m.MeterValue); err != nil {
 		return nil, err
 	} else {
 		buf.Write(tmp)
@@ -1202,7 +1206,9 @@ func (m *TransactionDataItems) MarshalJSON() ([]byte, error) {
 		buf.WriteString(",")
 	}
 	buf.WriteString("\"sampledValue\": ")
-	if tmp, err := json.Marshal(m.SampledValues); err != nil {
+	if m.SampledValues == nil {
+		buf.WriteString("[]") // required, null isn't allowed
+	} else if tmp, err := json.Marshal(m.SampledValues); err != nil {
 		return nil, err
 	} else {
 		buf.Write(tmp)
diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index 7c4e2bf..de24f85 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -1397,7 +1397,9 @@ func (m *ChargingSchedule) MarshalJSON() ([]byte, error) {
 		buf.WriteString(",")
 	}
 	buf.WriteString("\"chargingSchedulePeriod\": ")
-	if tmp, err := json.Marshal(m.ChargingSchedulePeriod); err != nil {
+	if m.ChargingSchedulePeriod == nil {
+		buf.WriteString("[]") // required, null isn't allowed
+	} else if tmp, err := json.Marshal(m.ChargingSchedulePeriod); err != nil {
 		return nil, err
 	} else {
 		buf.Write(tmp)
diff --git a/messages/v1x/csresp/json_encode.go b/messages/v1x/csresp/json_encode.go
index e32bfd7..ceaf45f 100644
--- a/messages/v1x/csresp/json_encode.go
+++ b/messages/v1x/csresp/json_encode.go
@@ -176,7 +176,9 @@ func (m *ChargingSchedule) MarshalJSON() ([]byte, error) {
 		buf.WriteString(",")
 	}
 	buf.WriteString("\"chargingSchedulePeriod\": ")
-	if tmp, err := json.Marshal(m.ChargingSchedulePeriod); err != nil {
+	if m.ChargingSchedulePeriod == nil {
+		buf.WriteString("[]") // required, null isn't allowed
+	} else if tmp, err := json.Marshal(m.ChargingSchedulePeriod); err != nil {
 		return nil, err
 	} else {
 		buf.Write(tmp)
-- 
2.43.0


From becdb9d907593ddf5f6dbb05d878d8427f4182a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:13 +0000
Subject: [PATCH 38/38] fix: treat a null item of a list as a malformed OCPP-J
 payload

---
 messages/v1x/cpreq/json_encode.go  | 26 ++++++++++++++++++++++++++
 messages/v1x/csreq/json_encode.go  | 23 +++++++++++++++++++++++
 messages/v1x/csresp/json_encode.go | 23 +++++++++++++++++++++++
 3 files changed, 72 insertions(+)

diff --git a/messages/v1x/cpreq/json_encode.go b/messages/v1x/cpreq/json_encode.go
index 8d4384b..2b14d4b 100644
--- a/messages/v1x/cpreq/json_encode.go
+++ b/messages/v1x/cpreq/json_encode.go
@@ -8,6 +8,20 @@ import (
 	"time"
 )
 
+// checkItems returns an error if an item of a list is null, which isn't allowed
+func checkItems(list []byte) error {
+	var items []json.RawMessage
+	if err := json.Unmarshal(list, &items); err != nil {
+		return err
+	}
+	for _, item := range items {
+		if string(item) == "null" {
+			return errors.New("null item in a list")
+		}
+	}
+	return nil
+}
+
 func (m *Authorize) MarshalJSON() ([]byte, error) {
 	buf := bytes.NewBuffer(make([]byte, 0))
 	buf.WriteString("{")
@@ -500,6 +514,9 @@ func (m *MeterValueItems) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.SampledValues); err != nil {
 				return err
 			}
+			if err := checkItems(v); err != nil {
+				return err
+			}
 			sampledValueReceived = string(v) != "null"
 		case "timestamp":
 			if err := json.Unmarshal([]byte(v), &m.Timestamp); err != nil {
@@ -589,6 +606,9 @@ func (m *MeterValues) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.MeterValue); err != nil {
 				return err
 			}
+			if err := checkItems(v); err != nil {
+				return err
+			}
 			meterValueReceived = string(v) != "null"
 		case "transactionId":
 			if err := json.Unmarshal([]byte(v), &m.TransactionId); err != nil {
@@ -1171,6 +1191,9 @@ func (m *StopTransaction) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.TransactionData); err != nil {
 				return err
 			}
+			if err := checkItems(v); err != nil {
+				return err
+			}
 		case "transactionId":
 			if err := json.Unmarshal([]byte(v), &m.TransactionId); err != nil {
 				return err
@@ -1247,6 +1270,9 @@ func (m *TransactionDataItems) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.SampledValues); err != nil {
 				return err
 			}
+			if err := checkItems(v); err != nil {
+				return err
+			}
 			sampledValueReceived = string(v) != "null"
 		case "timestamp":
 			if err := json.Unmarshal([]byte(v), &m.Timestamp); err != nil {
diff --git a/messages/v1x/csreq/json_encode.go b/messages/v1x/csreq/json_encode.go
index de24f85..c6d128f 100644
--- a/messages/v1x/csreq/json_encode.go
+++ b/messages/v1x/csreq/json_encode.go
@@ -8,6 +8,20 @@ import (
 	"time"
 )
 
+// checkItems returns an error if an item of a list is null, which isn't allowed
+func checkItems(list []byte) error {
+	var items []json.RawMessage
+	if err := json.Unmarshal(list, &items); err != nil {
+		return err
+	}
+	for _, item := range items {
+		if string(item) == "null" {
+			return errors.New("null item in a list")
+		}
+	}
+	return nil
+}
+
 func (m *CancelReservation) MarshalJSON() ([]byte, error) {
 	buf := bytes.NewBuffer(make([]byte, 0))
 	buf.WriteString("{")
@@ -703,6 +717,9 @@ func (m *GetConfiguration) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.Key); err != nil {
 				return err
 			}
+			if err := checkItems(v); err != nil {
+				return err
+			}
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
@@ -1288,6 +1305,9 @@ func (m *SendLocalList) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.LocalAuthorizationList); err != nil {
 				return err
 			}
+			if err := checkItems(v); err != nil {
+				return err
+			}
 		case "updateType":
 			if err := json.Unmarshal([]byte(v), &m.UpdateType); err != nil {
 				return err
@@ -1463,6 +1483,9 @@ func (m *ChargingSchedule) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ChargingSchedulePeriod); err != nil {
 				return err
 			}
+			if err := checkItems(v); err != nil {
+				return err
+			}
 			chargingSchedulePeriodReceived = string(v) != "null"
 		case "duration":
 			if err := json.Unmarshal([]byte(v), &m.Duration); err != nil {
diff --git a/messages/v1x/csresp/json_encode.go b/messages/v1x/csresp/json_encode.go
index ceaf45f..02fd5aa 100644
--- a/messages/v1x/csresp/json_encode.go
+++ b/messages/v1x/csresp/json_encode.go
@@ -8,6 +8,20 @@ import (
 	"time"
 )
 
+// checkItems returns an error if an item of a list is null, which isn't allowed
+func checkItems(list []byte) error {
+	var items []json.RawMessage
+	if err := json.Unmarshal(list, &items); err != nil {
+		return err
+	}
+	for _, item := range items {
+		if string(item) == "null" {
+			return errors.New("null item in a list")
+		}
+	}
+	return nil
+}
+
 func (m *CancelReservation) MarshalJSON() ([]byte, error) {
 	buf := bytes.NewBuffer(make([]byte, 0))
 	buf.WriteString("{")
@@ -244,6 +258,9 @@ func (m *ChargingSchedule) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ChargingSchedulePeriod); err != nil {
 				return err
 			}
+			if err := checkItems(v); err != nil {
+				return err
+			}
 			chargingSchedulePeriodReceived = string(v) != "null"
 		case "duration":
 			if err := json.Unmarshal([]byte(v), &m.Duration); err != nil {
@@ -749,10 +766,16 @@ func (m *GetConfiguration) UnmarshalJSON(b []byte) error {
 			if err := json.Unmarshal([]byte(v), &m.ConfigurationKey); err != nil {
 				return err
 			}
+			if err := checkItems(v); err != nil {
+				return err
+			}
 		case "unknownKey":
 			if err := json.Unmarshal([]byte(v), &m.UnknownKey); err != nil {
 				return err
 			}
+			if err := checkItems(v); err != nil {
+				return err
+			}
 		default:
 			return fmt.Errorf("additional property not allowed: \"" + k + "\"")
 		}
-- 
2.43.0

