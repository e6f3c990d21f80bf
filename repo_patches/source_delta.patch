From 6bcc208fffdb4b22f214ceec8fb925f86bee9ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:53 +0000
Subject: [PATCH 01/31] fix: replacing a non-empty many-to-many association
 raised AttributeError

The setter wrote the filtered inverse list onto its own list object instead of
onto the element being detached, and then kept the caller's list as its own
storage.  Write the filtered list to the detached element, and build our own
duplicate-free list.
---
 .../IEC61968/AssetModels/OpenCircuitTest.py   |  6 ++-
 .../IEC61968/AssetModels/ShortCircuitTest.py  |  6 ++-
 .../IEC61968/AssetModels/ToWindingSpec.py     | 12 +++--
 .../IEC61968/AssetModels/OpenCircuitTest.py   |  6 ++-
 .../IEC61968/AssetModels/ShortCircuitTest.py  |  6 ++-
 .../IEC61968/AssetModels/ToWindingSpec.py     | 12 +++--
 .../IEC61968/AssetModels/OpenCircuitTest.py   |  6 ++-
 .../IEC61968/AssetModels/ShortCircuitTest.py  |  6 ++-
 .../IEC61968/AssetModels/ToWindingSpec.py     | 12 +++--
 .../Dynamics/IEC61968/Assets/AssetsAsset.py   |  6 ++-
 .../Customers/CustomersCustomerAgreement.py   |  6 ++-
 .../IEC61970/Core/CoreConductingEquipment.py  |  6 ++-
 .../Dynamics/IEC61970/Core/CoreEquipment.py   |  6 ++-
 .../IEC61970/Core/CorePowerSystemResource.py  | 18 ++++---
 .../Dynamics/IEC61970/Core/CorePsrList.py     |  6 ++-
 .../IEC61970/Core/CoreReportingGroup.py       |  6 ++-
 .../ProtectionProtectionEquipment.py          |  6 ++-
 CIM14/IEC61968/AssetModels/OpenCircuitTest.py |  6 ++-
 .../IEC61968/AssetModels/ShortCircuitTest.py  |  6 ++-
 CIM14/IEC61968/AssetModels/ToWindingSpec.py   | 12 +++--
 CIM14/IEC61968/Assets/Asset.py                | 24 ++++++---
 CIM14/IEC61968/Common/ActivityRecord.py       | 12 +++--
 CIM14/IEC61968/Common/Document.py             | 12 +++--
 CIM14/IEC61968/Common/Location.py             |  6 ++-
 CIM14/IEC61968/Common/UserAttribute.py        | 12 +++--
 CIM14/IEC61968/Customers/Customer.py          |  6 ++-
 CIM14/IEC61968/Customers/CustomerAgreement.py | 18 ++++---
 CIM14/IEC61968/Customers/PricingStructure.py  | 18 ++++---
 CIM14/IEC61968/Customers/ServiceLocation.py   |  6 ++-
 CIM14/IEC61968/Customers/Tariff.py            | 12 +++--
 .../LoadControl/ConnectDisconnectFunction.py  |  6 ++-
 CIM14/IEC61968/Metering/EndDeviceAsset.py     |  6 ++-
 CIM14/IEC61968/Metering/EndDeviceGroup.py     |  6 ++-
 CIM14/IEC61968/Metering/IntervalBlock.py      |  6 ++-
 CIM14/IEC61968/Metering/IntervalReading.py    |  6 ++-
 CIM14/IEC61968/Metering/MeterReading.py       |  6 ++-
 CIM14/IEC61968/Metering/Reading.py            |  6 ++-
 CIM14/IEC61968/Metering/SDPLocation.py        |  6 ++-
 .../IEC61968/Metering/ServiceDeliveryPoint.py | 12 +++--
 .../PaymentMetering/AuxiliaryAccount.py       |  6 ++-
 CIM14/IEC61968/PaymentMetering/Charge.py      | 18 ++++---
 .../ConsumptionTariffInterval.py              | 12 +++--
 .../PaymentMetering/MerchantAccount.py        |  6 ++-
 .../IEC61968/PaymentMetering/TariffProfile.py | 18 ++++---
 .../PaymentMetering/TimeTariffInterval.py     | 12 +++--
 CIM14/IEC61968/PaymentMetering/Transactor.py  |  6 ++-
 CIM14/IEC61968/Work/Work.py                   |  6 ++-
 CIM14/IEC61970/Core/ConductingEquipment.py    |  6 ++-
 CIM14/IEC61970/Core/Equipment.py              |  6 ++-
 CIM14/IEC61970/Core/PowerSystemResource.py    | 18 ++++---
 CIM14/IEC61970/Core/PsrList.py                |  6 ++-
 CIM14/IEC61970/Core/ReportingGroup.py         |  6 ++-
 .../IEC61970/Dynamics/BlockOutputReference.py |  6 ++-
 CIM14/IEC61970/Dynamics/CompositeModel.py     |  6 ++-
 .../IEC61970/Dynamics/Generators/GenEquiv.py  |  6 ++-
 CIM14/IEC61970/Dynamics/Generators/GenLoad.py |  6 ++-
 .../IEC61970/Dynamics/Loads/AggregateLoad.py  |  6 ++-
 CIM14/IEC61970/Dynamics/MetaBlockReference.py |  6 ++-
 CIM14/IEC61970/Dynamics/MetaBlockSignal.py    | 12 +++--
 .../Dynamics/Motors/MechanicalLoad.py         |  6 ++-
 CIM14/IEC61970/Dynamics/RotatingMachine.py    |  6 ++-
 CIM14/IEC61970/Dynamics/SlotReference.py      |  6 ++-
 .../Dynamics/TurbineGovernors/GovHydro1.py    |  6 ++-
 .../GenerationDynamics/PrimeMover.py          |  6 ++-
 .../GenerationDynamics/SteamSupply.py         |  6 ++-
 .../GenerationDynamics/SteamTurbine.py        |  6 ++-
 CIM14/IEC61970/Meas/Accumulator.py            |  6 ++-
 CIM14/IEC61970/Meas/AccumulatorLimitSet.py    |  6 ++-
 CIM14/IEC61970/Meas/Analog.py                 |  6 ++-
 CIM14/IEC61970/Meas/AnalogLimitSet.py         |  6 ++-
 CIM14/IEC61970/Meas/Measurement.py            | 12 +++--
 CIM14/IEC61970/Outage/SwitchingOperation.py   |  6 ++-
 .../Protection/ProtectionEquipment.py         |  6 ++-
 CIM14/IEC61970/SCADA/CommunicationLink.py     |  6 ++-
 CIM14/IEC61970/SCADA/RemoteUnit.py            |  6 ++-
 CIM14/IEC61970/Wires/EnergyConsumer.py        |  6 ++-
 .../IEC61970/Wires/ReactiveCapabilityCurve.py |  6 ++-
 CIM14/IEC61970/Wires/Switch.py                | 12 +++--
 CIM14/IEC61970/Wires/SynchronousMachine.py    | 30 +++++++----
 .../Balanced/IEC61970/Wires/TransformerEnd.py |  6 ++-
 .../Wires/TransformerMeshImpedance.py         |  6 ++-
 .../IEC61968/AssetModels/ShortCircuitTest.py  |  6 ++-
 .../AssetModels/TransformerEndInfo.py         | 12 +++--
 CIM15/IEC61968/Assets/Asset.py                | 54 ++++++++++++-------
 CIM15/IEC61968/Assets/AssetContainer.py       |  6 ++-
 CIM15/IEC61968/Common/ActivityRecord.py       | 24 ++++++---
 CIM15/IEC61968/Common/CoordinateSystem.py     |  6 ++-
 CIM15/IEC61968/Common/Document.py             | 30 +++++++----
 CIM15/IEC61968/Common/Location.py             | 42 ++++++++++-----
 CIM15/IEC61968/Common/Organisation.py         |  6 ++-
 CIM15/IEC61968/Common/UserAttribute.py        | 30 +++++++----
 CIM15/IEC61968/Customers/Customer.py          | 12 +++--
 CIM15/IEC61968/Customers/CustomerAgreement.py | 18 ++++---
 CIM15/IEC61968/Customers/PricingStructure.py  | 18 ++++---
 CIM15/IEC61968/Customers/ServiceLocation.py   |  6 ++-
 CIM15/IEC61968/Customers/Tariff.py            | 12 +++--
 .../LoadControl/ConnectDisconnectFunction.py  |  6 ++-
 CIM15/IEC61968/Metering/EndDevice.py          |  6 ++-
 CIM15/IEC61968/Metering/EndDeviceGroup.py     |  6 ++-
 CIM15/IEC61968/Metering/IntervalBlock.py      |  6 ++-
 CIM15/IEC61968/Metering/IntervalReading.py    |  6 ++-
 CIM15/IEC61968/Metering/MeterReading.py       |  6 ++-
 CIM15/IEC61968/Metering/Reading.py            |  6 ++-
 CIM15/IEC61968/Metering/SDPLocation.py        |  6 ++-
 .../IEC61968/Metering/ServiceDeliveryPoint.py | 12 +++--
 .../PaymentMetering/AuxiliaryAccount.py       |  6 ++-
 CIM15/IEC61968/PaymentMetering/Charge.py      | 18 ++++---
 .../ConsumptionTariffInterval.py              | 18 ++++---
 .../PaymentMetering/MerchantAccount.py        |  6 ++-
 .../IEC61968/PaymentMetering/TariffProfile.py | 18 ++++---
 .../PaymentMetering/TimeTariffInterval.py     | 18 ++++---
 CIM15/IEC61968/PaymentMetering/Transactor.py  |  6 ++-
 CIM15/IEC61968/Work/Work.py                   | 12 +++--
 CIM15/IEC61970/Core/ConductingEquipment.py    |  6 ++-
 CIM15/IEC61970/Core/Equipment.py              |  6 ++-
 CIM15/IEC61970/Core/PowerSystemResource.py    | 30 +++++++----
 CIM15/IEC61970/Core/PsrList.py                |  6 ++-
 CIM15/IEC61970/Core/ReportingGroup.py         |  6 ++-
 .../GenerationDynamics/PrimeMover.py          |  6 ++-
 .../GenerationDynamics/SteamSupply.py         |  6 ++-
 .../GenerationDynamics/SteamTurbine.py        |  6 ++-
 CIM15/IEC61970/Graphics/DiagramObject.py      |  6 ++-
 CIM15/IEC61970/Graphics/VisibilityLayer.py    |  6 ++-
 .../InfAssets/AssetPropertyCurve.py           |  6 ++-
 .../Informative/InfAssets/DimensionsInfo.py   |  6 ++-
 .../IEC61970/Informative/InfAssets/Medium.py  |  6 ++-
 .../InfAssets/MountingConnection.py           | 12 +++--
 .../Informative/InfAssets/MountingPoint.py    |  6 ++-
 .../Informative/InfAssets/PowerRating.py      |  6 ++-
 .../Informative/InfAssets/Procedure.py        | 12 +++--
 .../Informative/InfAssets/ProcedureDataSet.py | 18 ++++---
 .../Informative/InfAssets/ReliabilityInfo.py  |  6 ++-
 .../Informative/InfAssets/Specification.py    | 12 +++--
 .../Informative/InfAssets/Structure.py        |  6 ++-
 .../Informative/InfAssets/TransformerAsset.py |  6 ++-
 .../InfAssets/TransformerObservation.py       |  6 ++-
 .../Informative/InfCommon/BusinessRole.py     |  6 ++-
 CIM15/IEC61970/Informative/InfCommon/Craft.py | 18 ++++---
 .../InfCommon/ScheduleParameterInfo.py        |  6 ++-
 .../Informative/InfCommon/ScheduledEvent.py   |  6 ++-
 CIM15/IEC61970/Informative/InfCommon/Skill.py | 12 +++--
 .../InfCustomers/CustomerBillingInfo.py       |  6 ++-
 .../InfCustomers/WorkBillingInfo.py           |  6 ++-
 .../InfERPSupport/ErpInvoiceLineItem.py       | 24 ++++++---
 .../InfERPSupport/ErpJournalEntry.py          | 18 ++++---
 .../InfERPSupport/ErpLedgerEntry.py           |  6 ++-
 .../InfERPSupport/ErpOrganisation.py          | 18 ++++---
 .../Informative/InfERPSupport/ErpPayable.py   |  6 ++-
 .../InfERPSupport/ErpPayableLineItem.py       | 12 +++--
 .../Informative/InfERPSupport/ErpPayment.py   | 18 ++++---
 .../Informative/InfERPSupport/ErpPerson.py    | 36 ++++++++-----
 .../InfERPSupport/ErpRecDelvLineItem.py       | 12 +++--
 .../InfERPSupport/ErpRecLineItem.py           | 12 +++--
 .../Informative/InfGMLSupport/Diagram.py      | 12 +++--
 .../InfGMLSupport/GmlDiagramObject.py         | 24 ++++++---
 .../InfGMLSupport/GmlFeatureStyle.py          | 12 +++--
 .../InfGMLSupport/GmlFeatureType.py           |  6 ++-
 .../Informative/InfGMLSupport/GmlFill.py      | 12 +++--
 .../Informative/InfGMLSupport/GmlFont.py      |  6 ++-
 .../Informative/InfGMLSupport/GmlGraphic.py   |  6 ++-
 .../Informative/InfGMLSupport/GmlMark.py      | 18 ++++---
 .../InfGMLSupport/GmlObservation.py           |  6 ++-
 .../Informative/InfGMLSupport/GmlSelector.py  |  6 ++-
 .../Informative/InfGMLSupport/GmlStroke.py    | 12 +++--
 .../InfGMLSupport/GmlSvgParameter.py          | 18 ++++---
 .../Informative/InfGMLSupport/GmlSymbol.py    |  6 ++-
 .../InfLoadControl/LoadMgmtFunction.py        |  6 ++-
 .../Informative/InfLocations/Hazard.py        |  6 ++-
 .../Informative/InfLocations/LandProperty.py  | 24 ++++++---
 .../InfLocations/OrgPropertyRole.py           |  6 ++-
 .../Informative/InfLocations/RedLine.py       |  6 ++-
 .../Informative/InfLocations/RightOfWay.py    |  6 ++-
 .../Informative/InfLocations/Route.py         |  6 ++-
 .../Informative/InfOperations/CallBack.py     | 12 +++--
 .../Informative/InfOperations/ChangeSet.py    | 12 +++--
 .../Informative/InfOperations/Circuit.py      |  6 ++-
 .../InfOperations/CircuitSection.py           |  6 ++-
 .../Informative/InfOperations/IncidentCode.py |  6 ++-
 .../InfOperations/IncidentRecord.py           |  6 ++-
 .../InfOperations/NetworkDataSet.py           | 18 ++++---
 .../Informative/InfOperations/OutageCode.py   | 12 +++--
 .../InfOperations/OutageNotification.py       |  6 ++-
 .../Informative/InfOperations/OutageRecord.py |  6 ++-
 .../Informative/InfOperations/OutageStep.py   | 12 +++--
 .../InfOperations/SwitchingSchedule.py        |  6 ++-
 .../InfOperations/SwitchingStep.py            |  6 ++-
 .../InfOperations/TroubleTicket.py            |  6 ++-
 .../Informative/InfWork/Appointment.py        |  6 ++-
 .../Informative/InfWork/Assignment.py         |  6 ++-
 CIM15/IEC61970/Informative/InfWork/CUAsset.py |  6 ++-
 .../Informative/InfWork/CUContractorItem.py   |  6 ++-
 CIM15/IEC61970/Informative/InfWork/CUGroup.py | 18 ++++---
 .../Informative/InfWork/CULaborItem.py        | 12 +++--
 .../Informative/InfWork/CUMaterialItem.py     | 12 +++--
 .../InfWork/CUWorkEquipmentItem.py            |  6 ++-
 .../Informative/InfWork/Capability.py         | 12 +++--
 .../Informative/InfWork/CompatibleUnit.py     | 42 ++++++++++-----
 .../Informative/InfWork/ConditionFactor.py    | 18 ++++---
 .../Informative/InfWork/ContractorItem.py     |  6 ++-
 .../IEC61970/Informative/InfWork/CostType.py  |  6 ++-
 CIM15/IEC61970/Informative/InfWork/Crew.py    | 48 +++++++++++------
 CIM15/IEC61970/Informative/InfWork/Design.py  | 18 ++++---
 .../Informative/InfWork/DesignLocation.py     | 24 ++++++---
 .../Informative/InfWork/DesignLocationCU.py   | 30 +++++++----
 .../IEC61970/Informative/InfWork/LaborItem.py |  6 ++-
 .../Informative/InfWork/MaterialItem.py       |  6 ++-
 CIM15/IEC61970/Informative/InfWork/Project.py |  6 ++-
 .../Informative/InfWork/PropertyUnit.py       | 12 +++--
 .../InfWork/QualificationRequirement.py       | 24 ++++++---
 CIM15/IEC61970/Informative/InfWork/Request.py |  6 ++-
 .../Informative/InfWork/ShiftPattern.py       |  6 ++-
 .../Informative/InfWork/WorkCostDetail.py     | 12 +++--
 .../Informative/InfWork/WorkLocation.py       |  6 ++-
 .../IEC61970/Informative/InfWork/WorkTask.py  | 24 ++++++---
 CIM15/IEC61970/Meas/Accumulator.py            |  6 ++-
 CIM15/IEC61970/Meas/AccumulatorLimitSet.py    |  6 ++-
 CIM15/IEC61970/Meas/Analog.py                 |  6 ++-
 CIM15/IEC61970/Meas/AnalogLimitSet.py         |  6 ++-
 CIM15/IEC61970/Meas/Limit.py                  |  6 ++-
 CIM15/IEC61970/Meas/Measurement.py            | 12 +++--
 CIM15/IEC61970/Meas/MeasurementValue.py       |  6 ++-
 CIM15/IEC61970/Outage/SwitchingOperation.py   |  6 ++-
 .../Protection/ProtectionEquipment.py         | 12 +++--
 CIM15/IEC61970/SCADA/CommunicationLink.py     |  6 ++-
 CIM15/IEC61970/SCADA/RemoteUnit.py            |  6 ++-
 CIM15/IEC61970/Wires/ACLineSegment.py         |  6 ++-
 .../IEC61970/Wires/CurrentTemperatureCurve.py |  6 ++-
 CIM15/IEC61970/Wires/ProtectedSwitch.py       |  6 ++-
 .../IEC61970/Wires/ReactiveCapabilityCurve.py |  6 ++-
 CIM15/IEC61970/Wires/Switch.py                | 18 ++++---
 CIM15/IEC61970/Wires/SynchronousMachine.py    | 12 +++--
 CIM15/IEC61970/Wires/TransformerEnd.py        |  6 ++-
 .../Wires/TransformerMeshImpedance.py         | 12 +++--
 CIM15/IEC62325/MarketParticipant.py           |  6 ++-
 CIM15/IEC62325/MarketRole.py                  |  6 ++-
 235 files changed, 1608 insertions(+), 804 deletions(-)

diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/OpenCircuitTest.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/OpenCircuitTest.py
index 2ebf5d5..5cbcd33 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/OpenCircuitTest.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/OpenCircuitTest.py
@@ -65,11 +65,13 @@ class OpenCircuitTest(DistributionWindingTest):
     def setMeasuredWindingSpecs(self, value):
         for p in self._MeasuredWindingSpecs:
             filtered = [q for q in p.OpenCircuitTests if q != self]
-            self._MeasuredWindingSpecs._OpenCircuitTests = filtered
+            p._OpenCircuitTests = filtered
+        self._MeasuredWindingSpecs = []
         for r in value:
             if self not in r._OpenCircuitTests:
                 r._OpenCircuitTests.append(self)
-        self._MeasuredWindingSpecs = value
+            if r not in self._MeasuredWindingSpecs:
+                self._MeasuredWindingSpecs.append(r)
 
     MeasuredWindingSpecs = property(getMeasuredWindingSpecs, setMeasuredWindingSpecs)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ShortCircuitTest.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ShortCircuitTest.py
index df1dc04..cd05057 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ShortCircuitTest.py
@@ -65,11 +65,13 @@ class ShortCircuitTest(DistributionWindingTest):
     def setShortedWindingSpecs(self, value):
         for p in self._ShortedWindingSpecs:
             filtered = [q for q in p.ShortCircuitTests if q != self]
-            self._ShortedWindingSpecs._ShortCircuitTests = filtered
+            p._ShortCircuitTests = filtered
+        self._ShortedWindingSpecs = []
         for r in value:
             if self not in r._ShortCircuitTests:
                 r._ShortCircuitTests.append(self)
-        self._ShortedWindingSpecs = value
+            if r not in self._ShortedWindingSpecs:
+                self._ShortedWindingSpecs.append(r)
 
     ShortedWindingSpecs = property(getShortedWindingSpecs, setShortedWindingSpecs)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ToWindingSpec.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ToWindingSpec.py
index 239896b..9fdf87a 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ToWindingSpec.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ToWindingSpec.py
@@ -69,11 +69,13 @@ class ToWindingSpec(IdentifiedObject):
     def setOpenCircuitTests(self, value):
         for p in self._OpenCircuitTests:
             filtered = [q for q in p.MeasuredWindingSpecs if q != self]
-            self._OpenCircuitTests._MeasuredWindingSpecs = filtered
+            p._MeasuredWindingSpecs = filtered
+        self._OpenCircuitTests = []
         for r in value:
             if self not in r._MeasuredWindingSpecs:
                 r._MeasuredWindingSpecs.append(self)
-        self._OpenCircuitTests = value
+            if r not in self._OpenCircuitTests:
+                self._OpenCircuitTests.append(r)
 
     OpenCircuitTests = property(getOpenCircuitTests, setOpenCircuitTests)
 
@@ -97,11 +99,13 @@ class ToWindingSpec(IdentifiedObject):
     def setShortCircuitTests(self, value):
         for p in self._ShortCircuitTests:
             filtered = [q for q in p.ShortedWindingSpecs if q != self]
-            self._ShortCircuitTests._ShortedWindingSpecs = filtered
+            p._ShortedWindingSpecs = filtered
+        self._ShortCircuitTests = []
         for r in value:
             if self not in r._ShortedWindingSpecs:
                 r._ShortedWindingSpecs.append(self)
-        self._ShortCircuitTests = value
+            if r not in self._ShortCircuitTests:
+                self._ShortCircuitTests.append(r)
 
     ShortCircuitTests = property(getShortCircuitTests, setShortCircuitTests)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/OpenCircuitTest.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/OpenCircuitTest.py
index 54d7867..5360dbb 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/OpenCircuitTest.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/OpenCircuitTest.py
@@ -65,11 +65,13 @@ class OpenCircuitTest(DistributionWindingTest):
     def setMeasuredWindingSpecs(self, value):
         for p in self._MeasuredWindingSpecs:
             filtered = [q for q in p.OpenCircuitTests if q != self]
-            self._MeasuredWindingSpecs._OpenCircuitTests = filtered
+            p._OpenCircuitTests = filtered
+        self._MeasuredWindingSpecs = []
         for r in value:
             if self not in r._OpenCircuitTests:
                 r._OpenCircuitTests.append(self)
-        self._MeasuredWindingSpecs = value
+            if r not in self._MeasuredWindingSpecs:
+                self._MeasuredWindingSpecs.append(r)
 
     MeasuredWindingSpecs = property(getMeasuredWindingSpecs, setMeasuredWindingSpecs)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ShortCircuitTest.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ShortCircuitTest.py
index 348e514..a24ba46 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ShortCircuitTest.py
@@ -65,11 +65,13 @@ class ShortCircuitTest(DistributionWindingTest):
     def setShortedWindingSpecs(self, value):
         for p in self._ShortedWindingSpecs:
             filtered = [q for q in p.ShortCircuitTests if q != self]
-            self._ShortedWindingSpecs._ShortCircuitTests = filtered
+            p._ShortCircuitTests = filtered
+        self._ShortedWindingSpecs = []
         for r in value:
             if self not in r._ShortCircuitTests:
                 r._ShortCircuitTests.append(self)
-        self._ShortedWindingSpecs = value
+            if r not in self._ShortedWindingSpecs:
+                self._ShortedWindingSpecs.append(r)
 
     ShortedWindingSpecs = property(getShortedWindingSpecs, setShortedWindingSpecs)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ToWindingSpec.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ToWindingSpec.py
index ed29991..11bfe0e 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ToWindingSpec.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ToWindingSpec.py
@@ -69,11 +69,13 @@ class ToWindingSpec(IdentifiedObject):
     def setOpenCircuitTests(self, value):
         for p in self._OpenCircuitTests:
             filtered = [q for q in p.MeasuredWindingSpecs if q != self]
-            self._OpenCircuitTests._MeasuredWindingSpecs = filtered
+            p._MeasuredWindingSpecs = filtered
+        self._OpenCircuitTests = []
         for r in value:
             if self not in r._MeasuredWindingSpecs:
                 r._MeasuredWindingSpecs.append(self)
-        self._OpenCircuitTests = value
+            if r not in self._OpenCircuitTests:
+                self._OpenCircuitTests.append(r)
 
     OpenCircuitTests = property(getOpenCircuitTests, setOpenCircuitTests)
 
@@ -97,11 +99,13 @@ class ToWindingSpec(IdentifiedObject):
     def setShortCircuitTests(self, value):
         for p in self._ShortCircuitTests:
             filtered = [q for q in p.ShortedWindingSpecs if q != self]
-            self._ShortCircuitTests._ShortedWindingSpecs = filtered
+            p._ShortedWindingSpecs = filtered
+        self._ShortCircuitTests = []
         for r in value:
             if self not in r._ShortedWindingSpecs:
                 r._ShortedWindingSpecs.append(self)
-        self._ShortCircuitTests = value
+            if r not in self._ShortCircuitTests:
+                self._ShortCircuitTests.append(r)
 
     ShortCircuitTests = property(getShortCircuitTests, setShortCircuitTests)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/OpenCircuitTest.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/OpenCircuitTest.py
index 6df8e81..4db880d 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/OpenCircuitTest.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/OpenCircuitTest.py
@@ -65,11 +65,13 @@ class OpenCircuitTest(DistributionWindingTest):
     def setMeasuredWindingSpecs(self, value):
         for p in self._MeasuredWindingSpecs:
             filtered = [q for q in p.OpenCircuitTests if q != self]
-            self._MeasuredWindingSpecs._OpenCircuitTests = filtered
+            p._OpenCircuitTests = filtered
+        self._MeasuredWindingSpecs = []
         for r in value:
             if self not in r._OpenCircuitTests:
                 r._OpenCircuitTests.append(self)
-        self._MeasuredWindingSpecs = value
+            if r not in self._MeasuredWindingSpecs:
+                self._MeasuredWindingSpecs.append(r)
 
     MeasuredWindingSpecs = property(getMeasuredWindingSpecs, setMeasuredWindingSpecs)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ShortCircuitTest.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ShortCircuitTest.py
index b2a4200..b1d73f4 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ShortCircuitTest.py
@@ -65,11 +65,13 @@ class ShortCircuitTest(DistributionWindingTest):
     def setShortedWindingSpecs(self, value):
         for p in self._ShortedWindingSpecs:
             filtered = [q for q in p.ShortCircuitTests if q != self]
-            self._ShortedWindingSpecs._ShortCircuitTests = filtered
+            p._ShortCircuitTests = filtered
+        self._ShortedWindingSpecs = []
         for r in value:
             if self not in r._ShortCircuitTests:
                 r._ShortCircuitTests.append(self)
-        self._ShortedWindingSpecs = value
+            if r not in self._ShortedWindingSpecs:
+                self._ShortedWindingSpecs.append(r)
 
     ShortedWindingSpecs = property(getShortedWindingSpecs, setShortedWindingSpecs)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ToWindingSpec.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ToWindingSpec.py
index 9e46995..4bd1e66 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ToWindingSpec.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ToWindingSpec.py
@@ -69,11 +69,13 @@ class ToWindingSpec(IdentifiedObject):
     def setOpenCircuitTests(self, value):
         for p in self._OpenCircuitTests:
             filtered = [q for q in p.MeasuredWindingSpecs if q != self]
-            self._OpenCircuitTests._MeasuredWindingSpecs = filtered
+            p._MeasuredWindingSpecs = filtered
+        self._OpenCircuitTests = []
         for r in value:
             if self not in r._MeasuredWindingSpecs:
                 r._MeasuredWindingSpecs.append(self)
-        self._OpenCircuitTests = value
+            if r not in self._OpenCircuitTests:
+                self._OpenCircuitTests.append(r)
 
     OpenCircuitTests = property(getOpenCircuitTests, setOpenCircuitTests)
 
@@ -97,11 +99,13 @@ class ToWindingSpec(IdentifiedObject):
     def setShortCircuitTests(self, value):
         for p in self._ShortCircuitTests:
             filtered = [q for q in p.ShortedWindingSpecs if q != self]
-            self._ShortCircuitTests._ShortedWindingSpecs = filtered
+            p._ShortedWindingSpecs = filtered
+        self._ShortCircuitTests = []
         for r in value:
             if self not in r._ShortedWindingSpecs:
                 r._ShortedWindingSpecs.append(self)
-        self._ShortCircuitTests = value
+            if r not in self._ShortCircuitTests:
+                self._ShortCircuitTests.append(r)
 
     ShortCircuitTests = property(getShortCircuitTests, setShortCircuitTests)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61968/Assets/AssetsAsset.py b/CIM14/ENTSOE/Dynamics/IEC61968/Assets/AssetsAsset.py
index 92b8761..a6eef26 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61968/Assets/AssetsAsset.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61968/Assets/AssetsAsset.py
@@ -47,11 +47,13 @@ class AssetsAsset(CoreIdentifiedObject):
     def setPowerSystemResources(self, value):
         for p in self._PowerSystemResources:
             filtered = [q for q in p.Assets if q != self]
-            self._PowerSystemResources._Assets = filtered
+            p._Assets = filtered
+        self._PowerSystemResources = []
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
-        self._PowerSystemResources = value
+            if r not in self._PowerSystemResources:
+                self._PowerSystemResources.append(r)
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61968/Customers/CustomersCustomerAgreement.py b/CIM14/ENTSOE/Dynamics/IEC61968/Customers/CustomersCustomerAgreement.py
index f626e2c..50fd045 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61968/Customers/CustomersCustomerAgreement.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61968/Customers/CustomersCustomerAgreement.py
@@ -47,11 +47,13 @@ class CustomersCustomerAgreement(CoreIdentifiedObject):
     def setEquipments(self, value):
         for p in self._Equipments:
             filtered = [q for q in p.CustomerAgreements if q != self]
-            self._Equipments._CustomerAgreements = filtered
+            p._CustomerAgreements = filtered
+        self._Equipments = []
         for r in value:
             if self not in r._CustomerAgreements:
                 r._CustomerAgreements.append(self)
-        self._Equipments = value
+            if r not in self._Equipments:
+                self._Equipments.append(r)
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py
index e02e422..c54e911 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py
@@ -123,11 +123,13 @@ class CoreConductingEquipment(CoreEquipment):
     def setProtectionEquipments(self, value):
         for p in self._ProtectionEquipments:
             filtered = [q for q in p.ConductingEquipments if q != self]
-            self._ProtectionEquipments._ConductingEquipments = filtered
+            p._ConductingEquipments = filtered
+        self._ProtectionEquipments = []
         for r in value:
             if self not in r._ConductingEquipments:
                 r._ConductingEquipments.append(self)
-        self._ProtectionEquipments = value
+            if r not in self._ProtectionEquipments:
+                self._ProtectionEquipments.append(r)
 
     ProtectionEquipments = property(getProtectionEquipments, setProtectionEquipments)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py
index 4071b1d..0fab3a3 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py
@@ -103,11 +103,13 @@ class CoreEquipment(CorePowerSystemResource):
     def setCustomerAgreements(self, value):
         for p in self._CustomerAgreements:
             filtered = [q for q in p.Equipments if q != self]
-            self._CustomerAgreements._Equipments = filtered
+            p._Equipments = filtered
+        self._CustomerAgreements = []
         for r in value:
             if self not in r._Equipments:
                 r._Equipments.append(self)
-        self._CustomerAgreements = value
+            if r not in self._CustomerAgreements:
+                self._CustomerAgreements.append(r)
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py
index d8e2a64..d7071c6 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py
@@ -115,11 +115,13 @@ class CorePowerSystemResource(CoreIdentifiedObject):
     def setReportingGroup(self, value):
         for p in self._ReportingGroup:
             filtered = [q for q in p.PowerSystemResource if q != self]
-            self._ReportingGroup._PowerSystemResource = filtered
+            p._PowerSystemResource = filtered
+        self._ReportingGroup = []
         for r in value:
             if self not in r._PowerSystemResource:
                 r._PowerSystemResource.append(self)
-        self._ReportingGroup = value
+            if r not in self._ReportingGroup:
+                self._ReportingGroup.append(r)
 
     ReportingGroup = property(getReportingGroup, setReportingGroup)
 
@@ -142,11 +144,13 @@ class CorePowerSystemResource(CoreIdentifiedObject):
     def setPsrLists(self, value):
         for p in self._PsrLists:
             filtered = [q for q in p.PowerSystemResources if q != self]
-            self._PsrLists._PowerSystemResources = filtered
+            p._PowerSystemResources = filtered
+        self._PsrLists = []
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
-        self._PsrLists = value
+            if r not in self._PsrLists:
+                self._PsrLists.append(r)
 
     PsrLists = property(getPsrLists, setPsrLists)
 
@@ -226,11 +230,13 @@ class CorePowerSystemResource(CoreIdentifiedObject):
     def setAssets(self, value):
         for p in self._Assets:
             filtered = [q for q in p.PowerSystemResources if q != self]
-            self._Assets._PowerSystemResources = filtered
+            p._PowerSystemResources = filtered
+        self._Assets = []
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
-        self._Assets = value
+            if r not in self._Assets:
+                self._Assets.append(r)
 
     Assets = property(getAssets, setAssets)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePsrList.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePsrList.py
index 3c176c8..e7a359c 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePsrList.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePsrList.py
@@ -47,11 +47,13 @@ class CorePsrList(CoreIdentifiedObject):
     def setPowerSystemResources(self, value):
         for p in self._PowerSystemResources:
             filtered = [q for q in p.PsrLists if q != self]
-            self._PowerSystemResources._PsrLists = filtered
+            p._PsrLists = filtered
+        self._PowerSystemResources = []
         for r in value:
             if self not in r._PsrLists:
                 r._PsrLists.append(self)
-        self._PowerSystemResources = value
+            if r not in self._PowerSystemResources:
+                self._PowerSystemResources.append(r)
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreReportingGroup.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreReportingGroup.py
index a101640..d266c08 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreReportingGroup.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreReportingGroup.py
@@ -47,11 +47,13 @@ class CoreReportingGroup(CoreIdentifiedObject):
     def setPowerSystemResource(self, value):
         for p in self._PowerSystemResource:
             filtered = [q for q in p.ReportingGroup if q != self]
-            self._PowerSystemResource._ReportingGroup = filtered
+            p._ReportingGroup = filtered
+        self._PowerSystemResource = []
         for r in value:
             if self not in r._ReportingGroup:
                 r._ReportingGroup.append(self)
-        self._PowerSystemResource = value
+            if r not in self._PowerSystemResource:
+                self._PowerSystemResource.append(r)
 
     PowerSystemResource = property(getPowerSystemResource, setPowerSystemResource)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Protection/ProtectionProtectionEquipment.py b/CIM14/ENTSOE/Dynamics/IEC61970/Protection/ProtectionProtectionEquipment.py
index 9f2f55b..7432aaa 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Protection/ProtectionProtectionEquipment.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Protection/ProtectionProtectionEquipment.py
@@ -47,11 +47,13 @@ class ProtectionProtectionEquipment(CoreEquipment):
     def setConductingEquipments(self, value):
         for p in self._ConductingEquipments:
             filtered = [q for q in p.ProtectionEquipments if q != self]
-            self._ConductingEquipments._ProtectionEquipments = filtered
+            p._ProtectionEquipments = filtered
+        self._ConductingEquipments = []
         for r in value:
             if self not in r._ProtectionEquipments:
                 r._ProtectionEquipments.append(self)
-        self._ConductingEquipments = value
+            if r not in self._ConductingEquipments:
+                self._ConductingEquipments.append(r)
 
     ConductingEquipments = property(getConductingEquipments, setConductingEquipments)
 
diff --git a/CIM14/IEC61968/AssetModels/OpenCircuitTest.py b/CIM14/IEC61968/AssetModels/OpenCircuitTest.py
index 457601f..d76c162 100644
--- a/CIM14/IEC61968/AssetModels/OpenCircuitTest.py
+++ b/CIM14/IEC61968/AssetModels/OpenCircuitTest.py
@@ -65,11 +65,13 @@ class OpenCircuitTest(DistributionWindingTest):
     def setMeasuredWindingSpecs(self, value):
         for p in self._MeasuredWindingSpecs:
             filtered = [q for q in p.OpenCircuitTests if q != self]
-            self._MeasuredWindingSpecs._OpenCircuitTests = filtered
+            p._OpenCircuitTests = filtered
+        self._MeasuredWindingSpecs = []
         for r in value:
             if self not in r._OpenCircuitTests:
                 r._OpenCircuitTests.append(self)
-        self._MeasuredWindingSpecs = value
+            if r not in self._MeasuredWindingSpecs:
+                self._MeasuredWindingSpecs.append(r)
 
     MeasuredWindingSpecs = property(getMeasuredWindingSpecs, setMeasuredWindingSpecs)
 
diff --git a/CIM14/IEC61968/AssetModels/ShortCircuitTest.py b/CIM14/IEC61968/AssetModels/ShortCircuitTest.py
index 05d817e..25f6eb5 100644
--- a/CIM14/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM14/IEC61968/AssetModels/ShortCircuitTest.py
@@ -65,11 +65,13 @@ class ShortCircuitTest(DistributionWindingTest):
     def setShortedWindingSpecs(self, value):
         for p in self._ShortedWindingSpecs:
             filtered = [q for q in p.ShortCircuitTests if q != self]
-            self._ShortedWindingSpecs._ShortCircuitTests = filtered
+            p._ShortCircuitTests = filtered
+        self._ShortedWindingSpecs = []
         for r in value:
             if self not in r._ShortCircuitTests:
                 r._ShortCircuitTests.append(self)
-        self._ShortedWindingSpecs = value
+            if r not in self._ShortedWindingSpecs:
+                self._ShortedWindingSpecs.append(r)
 
     ShortedWindingSpecs = property(getShortedWindingSpecs, setShortedWindingSpecs)
 
diff --git a/CIM14/IEC61968/AssetModels/ToWindingSpec.py b/CIM14/IEC61968/AssetModels/ToWindingSpec.py
index d28f93d..fe8b4af 100644
--- a/CIM14/IEC61968/AssetModels/ToWindingSpec.py
+++ b/CIM14/IEC61968/AssetModels/ToWindingSpec.py
@@ -86,11 +86,13 @@ class ToWindingSpec(IdentifiedObject):
     def setOpenCircuitTests(self, value):
         for p in self._OpenCircuitTests:
             filtered = [q for q in p.MeasuredWindingSpecs if q != self]
-            self._OpenCircuitTests._MeasuredWindingSpecs = filtered
+            p._MeasuredWindingSpecs = filtered
+        self._OpenCircuitTests = []
         for r in value:
             if self not in r._MeasuredWindingSpecs:
                 r._MeasuredWindingSpecs.append(self)
-        self._OpenCircuitTests = value
+            if r not in self._OpenCircuitTests:
+                self._OpenCircuitTests.append(r)
 
     OpenCircuitTests = property(getOpenCircuitTests, setOpenCircuitTests)
 
@@ -114,11 +116,13 @@ class ToWindingSpec(IdentifiedObject):
     def setShortCircuitTests(self, value):
         for p in self._ShortCircuitTests:
             filtered = [q for q in p.ShortedWindingSpecs if q != self]
-            self._ShortCircuitTests._ShortedWindingSpecs = filtered
+            p._ShortedWindingSpecs = filtered
+        self._ShortCircuitTests = []
         for r in value:
             if self not in r._ShortedWindingSpecs:
                 r._ShortedWindingSpecs.append(self)
-        self._ShortCircuitTests = value
+            if r not in self._ShortCircuitTests:
+                self._ShortCircuitTests.append(r)
 
     ShortCircuitTests = property(getShortCircuitTests, setShortCircuitTests)
 
diff --git a/CIM14/IEC61968/Assets/Asset.py b/CIM14/IEC61968/Assets/Asset.py
index 1bf06e8..25a6047 100644
--- a/CIM14/IEC61968/Assets/Asset.py
+++ b/CIM14/IEC61968/Assets/Asset.py
@@ -134,11 +134,13 @@ class Asset(IdentifiedObject):
     def setPowerSystemResources(self, value):
         for p in self._PowerSystemResources:
             filtered = [q for q in p.Assets if q != self]
-            self._PowerSystemResources._Assets = filtered
+            p._Assets = filtered
+        self._PowerSystemResources = []
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
-        self._PowerSystemResources = value
+            if r not in self._PowerSystemResources:
+                self._PowerSystemResources.append(r)
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
@@ -162,11 +164,13 @@ class Asset(IdentifiedObject):
     def setProperties(self, value):
         for p in self._Properties:
             filtered = [q for q in p.PropertyAssets if q != self]
-            self._Properties._PropertyAssets = filtered
+            p._PropertyAssets = filtered
+        self._Properties = []
         for r in value:
             if self not in r._PropertyAssets:
                 r._PropertyAssets.append(self)
-        self._Properties = value
+            if r not in self._Properties:
+                self._Properties.append(r)
 
     Properties = property(getProperties, setProperties)
 
@@ -193,11 +197,13 @@ class Asset(IdentifiedObject):
     def setActivityRecords(self, value):
         for p in self._ActivityRecords:
             filtered = [q for q in p.Assets if q != self]
-            self._ActivityRecords._Assets = filtered
+            p._Assets = filtered
+        self._ActivityRecords = []
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
-        self._ActivityRecords = value
+            if r not in self._ActivityRecords:
+                self._ActivityRecords.append(r)
 
     ActivityRecords = property(getActivityRecords, setActivityRecords)
 
@@ -299,11 +305,13 @@ class Asset(IdentifiedObject):
     def setRatings(self, value):
         for p in self._Ratings:
             filtered = [q for q in p.RatingAssets if q != self]
-            self._Ratings._RatingAssets = filtered
+            p._RatingAssets = filtered
+        self._Ratings = []
         for r in value:
             if self not in r._RatingAssets:
                 r._RatingAssets.append(self)
-        self._Ratings = value
+            if r not in self._Ratings:
+                self._Ratings.append(r)
 
     Ratings = property(getRatings, setRatings)
 
diff --git a/CIM14/IEC61968/Common/ActivityRecord.py b/CIM14/IEC61968/Common/ActivityRecord.py
index 56a925b..2f7fa1b 100644
--- a/CIM14/IEC61968/Common/ActivityRecord.py
+++ b/CIM14/IEC61968/Common/ActivityRecord.py
@@ -72,11 +72,13 @@ class ActivityRecord(IdentifiedObject):
     def setDocuments(self, value):
         for p in self._Documents:
             filtered = [q for q in p.ActivityRecords if q != self]
-            self._Documents._ActivityRecords = filtered
+            p._ActivityRecords = filtered
+        self._Documents = []
         for r in value:
             if self not in r._ActivityRecords:
                 r._ActivityRecords.append(self)
-        self._Documents = value
+            if r not in self._Documents:
+                self._Documents.append(r)
 
     Documents = property(getDocuments, setDocuments)
 
@@ -100,11 +102,13 @@ class ActivityRecord(IdentifiedObject):
     def setAssets(self, value):
         for p in self._Assets:
             filtered = [q for q in p.ActivityRecords if q != self]
-            self._Assets._ActivityRecords = filtered
+            p._ActivityRecords = filtered
+        self._Assets = []
         for r in value:
             if self not in r._ActivityRecords:
                 r._ActivityRecords.append(self)
-        self._Assets = value
+            if r not in self._Assets:
+                self._Assets.append(r)
 
     Assets = property(getAssets, setAssets)
 
diff --git a/CIM14/IEC61968/Common/Document.py b/CIM14/IEC61968/Common/Document.py
index 15132d8..ee68079 100644
--- a/CIM14/IEC61968/Common/Document.py
+++ b/CIM14/IEC61968/Common/Document.py
@@ -92,11 +92,13 @@ class Document(IdentifiedObject):
     def setActivityRecords(self, value):
         for p in self._ActivityRecords:
             filtered = [q for q in p.Documents if q != self]
-            self._ActivityRecords._Documents = filtered
+            p._Documents = filtered
+        self._ActivityRecords = []
         for r in value:
             if self not in r._Documents:
                 r._Documents.append(self)
-        self._ActivityRecords = value
+            if r not in self._ActivityRecords:
+                self._ActivityRecords.append(r)
 
     ActivityRecords = property(getActivityRecords, setActivityRecords)
 
@@ -123,11 +125,13 @@ class Document(IdentifiedObject):
     def setMeasurements(self, value):
         for p in self._Measurements:
             filtered = [q for q in p.Documents if q != self]
-            self._Measurements._Documents = filtered
+            p._Documents = filtered
+        self._Measurements = []
         for r in value:
             if self not in r._Documents:
                 r._Documents.append(self)
-        self._Measurements = value
+            if r not in self._Measurements:
+                self._Measurements.append(r)
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM14/IEC61968/Common/Location.py b/CIM14/IEC61968/Common/Location.py
index 98e5b3d..b638d17 100644
--- a/CIM14/IEC61968/Common/Location.py
+++ b/CIM14/IEC61968/Common/Location.py
@@ -164,11 +164,13 @@ class Location(IdentifiedObject):
     def setMeasurements(self, value):
         for p in self._Measurements:
             filtered = [q for q in p.Locations if q != self]
-            self._Measurements._Locations = filtered
+            p._Locations = filtered
+        self._Measurements = []
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
-        self._Measurements = value
+            if r not in self._Measurements:
+                self._Measurements.append(r)
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM14/IEC61968/Common/UserAttribute.py b/CIM14/IEC61968/Common/UserAttribute.py
index da79f2f..45ab81c 100644
--- a/CIM14/IEC61968/Common/UserAttribute.py
+++ b/CIM14/IEC61968/Common/UserAttribute.py
@@ -68,11 +68,13 @@ class UserAttribute(Element):
     def setPropertyAssets(self, value):
         for p in self._PropertyAssets:
             filtered = [q for q in p.Properties if q != self]
-            self._PropertyAssets._Properties = filtered
+            p._Properties = filtered
+        self._PropertyAssets = []
         for r in value:
             if self not in r._Properties:
                 r._Properties.append(self)
-        self._PropertyAssets = value
+            if r not in self._PropertyAssets:
+                self._PropertyAssets.append(r)
 
     PropertyAssets = property(getPropertyAssets, setPropertyAssets)
 
@@ -112,11 +114,13 @@ class UserAttribute(Element):
     def setRatingAssets(self, value):
         for p in self._RatingAssets:
             filtered = [q for q in p.Ratings if q != self]
-            self._RatingAssets._Ratings = filtered
+            p._Ratings = filtered
+        self._RatingAssets = []
         for r in value:
             if self not in r._Ratings:
                 r._Ratings.append(self)
-        self._RatingAssets = value
+            if r not in self._RatingAssets:
+                self._RatingAssets.append(r)
 
     RatingAssets = property(getRatingAssets, setRatingAssets)
 
diff --git a/CIM14/IEC61968/Customers/Customer.py b/CIM14/IEC61968/Customers/Customer.py
index 9e908a7..5a7a513 100644
--- a/CIM14/IEC61968/Customers/Customer.py
+++ b/CIM14/IEC61968/Customers/Customer.py
@@ -79,11 +79,13 @@ class Customer(Organisation):
     def setWorks(self, value):
         for p in self._Works:
             filtered = [q for q in p.Customers if q != self]
-            self._Works._Customers = filtered
+            p._Customers = filtered
+        self._Works = []
         for r in value:
             if self not in r._Customers:
                 r._Customers.append(self)
-        self._Works = value
+            if r not in self._Works:
+                self._Works.append(r)
 
     Works = property(getWorks, setWorks)
 
diff --git a/CIM14/IEC61968/Customers/CustomerAgreement.py b/CIM14/IEC61968/Customers/CustomerAgreement.py
index fddfca6..a14259a 100644
--- a/CIM14/IEC61968/Customers/CustomerAgreement.py
+++ b/CIM14/IEC61968/Customers/CustomerAgreement.py
@@ -139,11 +139,13 @@ class CustomerAgreement(Agreement):
     def setPricingStructures(self, value):
         for p in self._PricingStructures:
             filtered = [q for q in p.CustomerAgreements if q != self]
-            self._PricingStructures._CustomerAgreements = filtered
+            p._CustomerAgreements = filtered
+        self._PricingStructures = []
         for r in value:
             if self not in r._CustomerAgreements:
                 r._CustomerAgreements.append(self)
-        self._PricingStructures = value
+            if r not in self._PricingStructures:
+                self._PricingStructures.append(r)
 
     PricingStructures = property(getPricingStructures, setPricingStructures)
 
@@ -167,11 +169,13 @@ class CustomerAgreement(Agreement):
     def setServiceLocations(self, value):
         for p in self._ServiceLocations:
             filtered = [q for q in p.CustomerAgreements if q != self]
-            self._ServiceLocations._CustomerAgreements = filtered
+            p._CustomerAgreements = filtered
+        self._ServiceLocations = []
         for r in value:
             if self not in r._CustomerAgreements:
                 r._CustomerAgreements.append(self)
-        self._ServiceLocations = value
+            if r not in self._ServiceLocations:
+                self._ServiceLocations.append(r)
 
     ServiceLocations = property(getServiceLocations, setServiceLocations)
 
@@ -332,11 +336,13 @@ class CustomerAgreement(Agreement):
     def setEquipments(self, value):
         for p in self._Equipments:
             filtered = [q for q in p.CustomerAgreements if q != self]
-            self._Equipments._CustomerAgreements = filtered
+            p._CustomerAgreements = filtered
+        self._Equipments = []
         for r in value:
             if self not in r._CustomerAgreements:
                 r._CustomerAgreements.append(self)
-        self._Equipments = value
+            if r not in self._Equipments:
+                self._Equipments.append(r)
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM14/IEC61968/Customers/PricingStructure.py b/CIM14/IEC61968/Customers/PricingStructure.py
index 0bdec28..4aa99fd 100644
--- a/CIM14/IEC61968/Customers/PricingStructure.py
+++ b/CIM14/IEC61968/Customers/PricingStructure.py
@@ -111,11 +111,13 @@ class PricingStructure(Document):
     def setServiceDeliveryPoints(self, value):
         for p in self._ServiceDeliveryPoints:
             filtered = [q for q in p.PricingStructures if q != self]
-            self._ServiceDeliveryPoints._PricingStructures = filtered
+            p._PricingStructures = filtered
+        self._ServiceDeliveryPoints = []
         for r in value:
             if self not in r._PricingStructures:
                 r._PricingStructures.append(self)
-        self._ServiceDeliveryPoints = value
+            if r not in self._ServiceDeliveryPoints:
+                self._ServiceDeliveryPoints.append(r)
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
@@ -139,11 +141,13 @@ class PricingStructure(Document):
     def setCustomerAgreements(self, value):
         for p in self._CustomerAgreements:
             filtered = [q for q in p.PricingStructures if q != self]
-            self._CustomerAgreements._PricingStructures = filtered
+            p._PricingStructures = filtered
+        self._CustomerAgreements = []
         for r in value:
             if self not in r._PricingStructures:
                 r._PricingStructures.append(self)
-        self._CustomerAgreements = value
+            if r not in self._CustomerAgreements:
+                self._CustomerAgreements.append(r)
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
@@ -184,11 +188,13 @@ class PricingStructure(Document):
     def setTariffs(self, value):
         for p in self._Tariffs:
             filtered = [q for q in p.PricingStructures if q != self]
-            self._Tariffs._PricingStructures = filtered
+            p._PricingStructures = filtered
+        self._Tariffs = []
         for r in value:
             if self not in r._PricingStructures:
                 r._PricingStructures.append(self)
-        self._Tariffs = value
+            if r not in self._Tariffs:
+                self._Tariffs.append(r)
 
     Tariffs = property(getTariffs, setTariffs)
 
diff --git a/CIM14/IEC61968/Customers/ServiceLocation.py b/CIM14/IEC61968/Customers/ServiceLocation.py
index a43c7d4..6de7a05 100644
--- a/CIM14/IEC61968/Customers/ServiceLocation.py
+++ b/CIM14/IEC61968/Customers/ServiceLocation.py
@@ -91,11 +91,13 @@ class ServiceLocation(Location):
     def setCustomerAgreements(self, value):
         for p in self._CustomerAgreements:
             filtered = [q for q in p.ServiceLocations if q != self]
-            self._CustomerAgreements._ServiceLocations = filtered
+            p._ServiceLocations = filtered
+        self._CustomerAgreements = []
         for r in value:
             if self not in r._ServiceLocations:
                 r._ServiceLocations.append(self)
-        self._CustomerAgreements = value
+            if r not in self._CustomerAgreements:
+                self._CustomerAgreements.append(r)
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
diff --git a/CIM14/IEC61968/Customers/Tariff.py b/CIM14/IEC61968/Customers/Tariff.py
index 8a7fefc..1790105 100644
--- a/CIM14/IEC61968/Customers/Tariff.py
+++ b/CIM14/IEC61968/Customers/Tariff.py
@@ -61,11 +61,13 @@ class Tariff(Document):
     def setTariffProfiles(self, value):
         for p in self._TariffProfiles:
             filtered = [q for q in p.Tariffs if q != self]
-            self._TariffProfiles._Tariffs = filtered
+            p._Tariffs = filtered
+        self._TariffProfiles = []
         for r in value:
             if self not in r._Tariffs:
                 r._Tariffs.append(self)
-        self._TariffProfiles = value
+            if r not in self._TariffProfiles:
+                self._TariffProfiles.append(r)
 
     TariffProfiles = property(getTariffProfiles, setTariffProfiles)
 
@@ -89,11 +91,13 @@ class Tariff(Document):
     def setPricingStructures(self, value):
         for p in self._PricingStructures:
             filtered = [q for q in p.Tariffs if q != self]
-            self._PricingStructures._Tariffs = filtered
+            p._Tariffs = filtered
+        self._PricingStructures = []
         for r in value:
             if self not in r._Tariffs:
                 r._Tariffs.append(self)
-        self._PricingStructures = value
+            if r not in self._PricingStructures:
+                self._PricingStructures.append(r)
 
     PricingStructures = property(getPricingStructures, setPricingStructures)
 
diff --git a/CIM14/IEC61968/LoadControl/ConnectDisconnectFunction.py b/CIM14/IEC61968/LoadControl/ConnectDisconnectFunction.py
index 6376608..db01169 100644
--- a/CIM14/IEC61968/LoadControl/ConnectDisconnectFunction.py
+++ b/CIM14/IEC61968/LoadControl/ConnectDisconnectFunction.py
@@ -82,11 +82,13 @@ class ConnectDisconnectFunction(DeviceFunction):
     def setSwitches(self, value):
         for p in self._Switches:
             filtered = [q for q in p.ConnectDisconnectFunctions if q != self]
-            self._Switches._ConnectDisconnectFunctions = filtered
+            p._ConnectDisconnectFunctions = filtered
+        self._Switches = []
         for r in value:
             if self not in r._ConnectDisconnectFunctions:
                 r._ConnectDisconnectFunctions.append(self)
-        self._Switches = value
+            if r not in self._Switches:
+                self._Switches.append(r)
 
     Switches = property(getSwitches, setSwitches)
 
diff --git a/CIM14/IEC61968/Metering/EndDeviceAsset.py b/CIM14/IEC61968/Metering/EndDeviceAsset.py
index ef01f20..a0c23b1 100644
--- a/CIM14/IEC61968/Metering/EndDeviceAsset.py
+++ b/CIM14/IEC61968/Metering/EndDeviceAsset.py
@@ -133,11 +133,13 @@ class EndDeviceAsset(AssetContainer):
     def setEndDeviceGroups(self, value):
         for p in self._EndDeviceGroups:
             filtered = [q for q in p.EndDeviceAssets if q != self]
-            self._EndDeviceGroups._EndDeviceAssets = filtered
+            p._EndDeviceAssets = filtered
+        self._EndDeviceGroups = []
         for r in value:
             if self not in r._EndDeviceAssets:
                 r._EndDeviceAssets.append(self)
-        self._EndDeviceGroups = value
+            if r not in self._EndDeviceGroups:
+                self._EndDeviceGroups.append(r)
 
     EndDeviceGroups = property(getEndDeviceGroups, setEndDeviceGroups)
 
diff --git a/CIM14/IEC61968/Metering/EndDeviceGroup.py b/CIM14/IEC61968/Metering/EndDeviceGroup.py
index 04851f8..45561e9 100644
--- a/CIM14/IEC61968/Metering/EndDeviceGroup.py
+++ b/CIM14/IEC61968/Metering/EndDeviceGroup.py
@@ -61,11 +61,13 @@ class EndDeviceGroup(IdentifiedObject):
     def setEndDeviceAssets(self, value):
         for p in self._EndDeviceAssets:
             filtered = [q for q in p.EndDeviceGroups if q != self]
-            self._EndDeviceAssets._EndDeviceGroups = filtered
+            p._EndDeviceGroups = filtered
+        self._EndDeviceAssets = []
         for r in value:
             if self not in r._EndDeviceGroups:
                 r._EndDeviceGroups.append(self)
-        self._EndDeviceAssets = value
+            if r not in self._EndDeviceAssets:
+                self._EndDeviceAssets.append(r)
 
     EndDeviceAssets = property(getEndDeviceAssets, setEndDeviceAssets)
 
diff --git a/CIM14/IEC61968/Metering/IntervalBlock.py b/CIM14/IEC61968/Metering/IntervalBlock.py
index bf0d16b..7f26ad9 100644
--- a/CIM14/IEC61968/Metering/IntervalBlock.py
+++ b/CIM14/IEC61968/Metering/IntervalBlock.py
@@ -112,11 +112,13 @@ class IntervalBlock(Element):
     def setIntervalReadings(self, value):
         for p in self._IntervalReadings:
             filtered = [q for q in p.IntervalBlocks if q != self]
-            self._IntervalReadings._IntervalBlocks = filtered
+            p._IntervalBlocks = filtered
+        self._IntervalReadings = []
         for r in value:
             if self not in r._IntervalBlocks:
                 r._IntervalBlocks.append(self)
-        self._IntervalReadings = value
+            if r not in self._IntervalReadings:
+                self._IntervalReadings.append(r)
 
     IntervalReadings = property(getIntervalReadings, setIntervalReadings)
 
diff --git a/CIM14/IEC61968/Metering/IntervalReading.py b/CIM14/IEC61968/Metering/IntervalReading.py
index 78dfaab..2ba7328 100644
--- a/CIM14/IEC61968/Metering/IntervalReading.py
+++ b/CIM14/IEC61968/Metering/IntervalReading.py
@@ -79,11 +79,13 @@ class IntervalReading(MeasurementValue):
     def setIntervalBlocks(self, value):
         for p in self._IntervalBlocks:
             filtered = [q for q in p.IntervalReadings if q != self]
-            self._IntervalBlocks._IntervalReadings = filtered
+            p._IntervalReadings = filtered
+        self._IntervalBlocks = []
         for r in value:
             if self not in r._IntervalReadings:
                 r._IntervalReadings.append(self)
-        self._IntervalBlocks = value
+            if r not in self._IntervalBlocks:
+                self._IntervalBlocks.append(r)
 
     IntervalBlocks = property(getIntervalBlocks, setIntervalBlocks)
 
diff --git a/CIM14/IEC61968/Metering/MeterReading.py b/CIM14/IEC61968/Metering/MeterReading.py
index 8cecb5e..13d55bb 100644
--- a/CIM14/IEC61968/Metering/MeterReading.py
+++ b/CIM14/IEC61968/Metering/MeterReading.py
@@ -150,11 +150,13 @@ class MeterReading(IdentifiedObject):
     def setReadings(self, value):
         for p in self._Readings:
             filtered = [q for q in p.MeterReadings if q != self]
-            self._Readings._MeterReadings = filtered
+            p._MeterReadings = filtered
+        self._Readings = []
         for r in value:
             if self not in r._MeterReadings:
                 r._MeterReadings.append(self)
-        self._Readings = value
+            if r not in self._Readings:
+                self._Readings.append(r)
 
     Readings = property(getReadings, setReadings)
 
diff --git a/CIM14/IEC61968/Metering/Reading.py b/CIM14/IEC61968/Metering/Reading.py
index 532ee3c..0089354 100644
--- a/CIM14/IEC61968/Metering/Reading.py
+++ b/CIM14/IEC61968/Metering/Reading.py
@@ -120,11 +120,13 @@ class Reading(MeasurementValue):
     def setMeterReadings(self, value):
         for p in self._MeterReadings:
             filtered = [q for q in p.Readings if q != self]
-            self._MeterReadings._Readings = filtered
+            p._Readings = filtered
+        self._MeterReadings = []
         for r in value:
             if self not in r._Readings:
                 r._Readings.append(self)
-        self._MeterReadings = value
+            if r not in self._MeterReadings:
+                self._MeterReadings.append(r)
 
     MeterReadings = property(getMeterReadings, setMeterReadings)
 
diff --git a/CIM14/IEC61968/Metering/SDPLocation.py b/CIM14/IEC61968/Metering/SDPLocation.py
index 66fe1e2..01be54a 100644
--- a/CIM14/IEC61968/Metering/SDPLocation.py
+++ b/CIM14/IEC61968/Metering/SDPLocation.py
@@ -65,11 +65,13 @@ class SDPLocation(Location):
     def setServiceDeliveryPoints(self, value):
         for p in self._ServiceDeliveryPoints:
             filtered = [q for q in p.SDPLocations if q != self]
-            self._ServiceDeliveryPoints._SDPLocations = filtered
+            p._SDPLocations = filtered
+        self._ServiceDeliveryPoints = []
         for r in value:
             if self not in r._SDPLocations:
                 r._SDPLocations.append(self)
-        self._ServiceDeliveryPoints = value
+            if r not in self._ServiceDeliveryPoints:
+                self._ServiceDeliveryPoints.append(r)
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
diff --git a/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py b/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py
index 571e3fc..e7cb678 100644
--- a/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py
+++ b/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py
@@ -125,11 +125,13 @@ class ServiceDeliveryPoint(IdentifiedObject):
     def setPricingStructures(self, value):
         for p in self._PricingStructures:
             filtered = [q for q in p.ServiceDeliveryPoints if q != self]
-            self._PricingStructures._ServiceDeliveryPoints = filtered
+            p._ServiceDeliveryPoints = filtered
+        self._PricingStructures = []
         for r in value:
             if self not in r._ServiceDeliveryPoints:
                 r._ServiceDeliveryPoints.append(self)
-        self._PricingStructures = value
+            if r not in self._PricingStructures:
+                self._PricingStructures.append(r)
 
     PricingStructures = property(getPricingStructures, setPricingStructures)
 
@@ -170,11 +172,13 @@ class ServiceDeliveryPoint(IdentifiedObject):
     def setSDPLocations(self, value):
         for p in self._SDPLocations:
             filtered = [q for q in p.ServiceDeliveryPoints if q != self]
-            self._SDPLocations._ServiceDeliveryPoints = filtered
+            p._ServiceDeliveryPoints = filtered
+        self._SDPLocations = []
         for r in value:
             if self not in r._ServiceDeliveryPoints:
                 r._ServiceDeliveryPoints.append(self)
-        self._SDPLocations = value
+            if r not in self._SDPLocations:
+                self._SDPLocations.append(r)
 
     SDPLocations = property(getSDPLocations, setSDPLocations)
 
diff --git a/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py b/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py
index 2fbbad5..f218d7b 100644
--- a/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py
+++ b/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py
@@ -74,11 +74,13 @@ class AuxiliaryAccount(Document):
     def setCharges(self, value):
         for p in self._Charges:
             filtered = [q for q in p.AuxiliaryAccounts if q != self]
-            self._Charges._AuxiliaryAccounts = filtered
+            p._AuxiliaryAccounts = filtered
+        self._Charges = []
         for r in value:
             if self not in r._AuxiliaryAccounts:
                 r._AuxiliaryAccounts.append(self)
-        self._Charges = value
+            if r not in self._Charges:
+                self._Charges.append(r)
 
     Charges = property(getCharges, setCharges)
 
diff --git a/CIM14/IEC61968/PaymentMetering/Charge.py b/CIM14/IEC61968/PaymentMetering/Charge.py
index 4df184d..ea6d367 100644
--- a/CIM14/IEC61968/PaymentMetering/Charge.py
+++ b/CIM14/IEC61968/PaymentMetering/Charge.py
@@ -76,11 +76,13 @@ class Charge(IdentifiedObject):
     def setAuxiliaryAccounts(self, value):
         for p in self._AuxiliaryAccounts:
             filtered = [q for q in p.Charges if q != self]
-            self._AuxiliaryAccounts._Charges = filtered
+            p._Charges = filtered
+        self._AuxiliaryAccounts = []
         for r in value:
             if self not in r._Charges:
                 r._Charges.append(self)
-        self._AuxiliaryAccounts = value
+            if r not in self._AuxiliaryAccounts:
+                self._AuxiliaryAccounts.append(r)
 
     AuxiliaryAccounts = property(getAuxiliaryAccounts, setAuxiliaryAccounts)
 
@@ -145,11 +147,13 @@ class Charge(IdentifiedObject):
     def setConsumptionTariffIntervals(self, value):
         for p in self._ConsumptionTariffIntervals:
             filtered = [q for q in p.Charges if q != self]
-            self._ConsumptionTariffIntervals._Charges = filtered
+            p._Charges = filtered
+        self._ConsumptionTariffIntervals = []
         for r in value:
             if self not in r._Charges:
                 r._Charges.append(self)
-        self._ConsumptionTariffIntervals = value
+            if r not in self._ConsumptionTariffIntervals:
+                self._ConsumptionTariffIntervals.append(r)
 
     ConsumptionTariffIntervals = property(getConsumptionTariffIntervals, setConsumptionTariffIntervals)
 
@@ -173,11 +177,13 @@ class Charge(IdentifiedObject):
     def setTimeTariffIntervals(self, value):
         for p in self._TimeTariffIntervals:
             filtered = [q for q in p.Charges if q != self]
-            self._TimeTariffIntervals._Charges = filtered
+            p._Charges = filtered
+        self._TimeTariffIntervals = []
         for r in value:
             if self not in r._Charges:
                 r._Charges.append(self)
-        self._TimeTariffIntervals = value
+            if r not in self._TimeTariffIntervals:
+                self._TimeTariffIntervals.append(r)
 
     TimeTariffIntervals = property(getTimeTariffIntervals, setTimeTariffIntervals)
 
diff --git a/CIM14/IEC61968/PaymentMetering/ConsumptionTariffInterval.py b/CIM14/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
index 4005ae4..c748d87 100644
--- a/CIM14/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
+++ b/CIM14/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
@@ -61,11 +61,13 @@ class ConsumptionTariffInterval(Element):
     def setTariffProfiles(self, value):
         for p in self._TariffProfiles:
             filtered = [q for q in p.ConsumptionTariffIntervals if q != self]
-            self._TariffProfiles._ConsumptionTariffIntervals = filtered
+            p._ConsumptionTariffIntervals = filtered
+        self._TariffProfiles = []
         for r in value:
             if self not in r._ConsumptionTariffIntervals:
                 r._ConsumptionTariffIntervals.append(self)
-        self._TariffProfiles = value
+            if r not in self._TariffProfiles:
+                self._TariffProfiles.append(r)
 
     TariffProfiles = property(getTariffProfiles, setTariffProfiles)
 
@@ -89,11 +91,13 @@ class ConsumptionTariffInterval(Element):
     def setCharges(self, value):
         for p in self._Charges:
             filtered = [q for q in p.ConsumptionTariffIntervals if q != self]
-            self._Charges._ConsumptionTariffIntervals = filtered
+            p._ConsumptionTariffIntervals = filtered
+        self._Charges = []
         for r in value:
             if self not in r._ConsumptionTariffIntervals:
                 r._ConsumptionTariffIntervals.append(self)
-        self._Charges = value
+            if r not in self._Charges:
+                self._Charges.append(r)
 
     Charges = property(getCharges, setCharges)
 
diff --git a/CIM14/IEC61968/PaymentMetering/MerchantAccount.py b/CIM14/IEC61968/PaymentMetering/MerchantAccount.py
index e506627..1fad4d0 100644
--- a/CIM14/IEC61968/PaymentMetering/MerchantAccount.py
+++ b/CIM14/IEC61968/PaymentMetering/MerchantAccount.py
@@ -130,11 +130,13 @@ class MerchantAccount(Document):
     def setTransactors(self, value):
         for p in self._Transactors:
             filtered = [q for q in p.MerchantAccounts if q != self]
-            self._Transactors._MerchantAccounts = filtered
+            p._MerchantAccounts = filtered
+        self._Transactors = []
         for r in value:
             if self not in r._MerchantAccounts:
                 r._MerchantAccounts.append(self)
-        self._Transactors = value
+            if r not in self._Transactors:
+                self._Transactors.append(r)
 
     Transactors = property(getTransactors, setTransactors)
 
diff --git a/CIM14/IEC61968/PaymentMetering/TariffProfile.py b/CIM14/IEC61968/PaymentMetering/TariffProfile.py
index 98f5179..de85e94 100644
--- a/CIM14/IEC61968/PaymentMetering/TariffProfile.py
+++ b/CIM14/IEC61968/PaymentMetering/TariffProfile.py
@@ -61,11 +61,13 @@ class TariffProfile(Document):
     def setConsumptionTariffIntervals(self, value):
         for p in self._ConsumptionTariffIntervals:
             filtered = [q for q in p.TariffProfiles if q != self]
-            self._ConsumptionTariffIntervals._TariffProfiles = filtered
+            p._TariffProfiles = filtered
+        self._ConsumptionTariffIntervals = []
         for r in value:
             if self not in r._TariffProfiles:
                 r._TariffProfiles.append(self)
-        self._ConsumptionTariffIntervals = value
+            if r not in self._ConsumptionTariffIntervals:
+                self._ConsumptionTariffIntervals.append(r)
 
     ConsumptionTariffIntervals = property(getConsumptionTariffIntervals, setConsumptionTariffIntervals)
 
@@ -89,11 +91,13 @@ class TariffProfile(Document):
     def setTimeTariffIntervals(self, value):
         for p in self._TimeTariffIntervals:
             filtered = [q for q in p.TariffProfiles if q != self]
-            self._TimeTariffIntervals._TariffProfiles = filtered
+            p._TariffProfiles = filtered
+        self._TimeTariffIntervals = []
         for r in value:
             if self not in r._TariffProfiles:
                 r._TariffProfiles.append(self)
-        self._TimeTariffIntervals = value
+            if r not in self._TimeTariffIntervals:
+                self._TimeTariffIntervals.append(r)
 
     TimeTariffIntervals = property(getTimeTariffIntervals, setTimeTariffIntervals)
 
@@ -117,11 +121,13 @@ class TariffProfile(Document):
     def setTariffs(self, value):
         for p in self._Tariffs:
             filtered = [q for q in p.TariffProfiles if q != self]
-            self._Tariffs._TariffProfiles = filtered
+            p._TariffProfiles = filtered
+        self._Tariffs = []
         for r in value:
             if self not in r._TariffProfiles:
                 r._TariffProfiles.append(self)
-        self._Tariffs = value
+            if r not in self._Tariffs:
+                self._Tariffs.append(r)
 
     Tariffs = property(getTariffs, setTariffs)
 
diff --git a/CIM14/IEC61968/PaymentMetering/TimeTariffInterval.py b/CIM14/IEC61968/PaymentMetering/TimeTariffInterval.py
index c76439a..51f2794 100644
--- a/CIM14/IEC61968/PaymentMetering/TimeTariffInterval.py
+++ b/CIM14/IEC61968/PaymentMetering/TimeTariffInterval.py
@@ -61,11 +61,13 @@ class TimeTariffInterval(Element):
     def setTariffProfiles(self, value):
         for p in self._TariffProfiles:
             filtered = [q for q in p.TimeTariffIntervals if q != self]
-            self._TariffProfiles._TimeTariffIntervals = filtered
+            p._TimeTariffIntervals = filtered
+        self._TariffProfiles = []
         for r in value:
             if self not in r._TimeTariffIntervals:
                 r._TimeTariffIntervals.append(self)
-        self._TariffProfiles = value
+            if r not in self._TariffProfiles:
+                self._TariffProfiles.append(r)
 
     TariffProfiles = property(getTariffProfiles, setTariffProfiles)
 
@@ -89,11 +91,13 @@ class TimeTariffInterval(Element):
     def setCharges(self, value):
         for p in self._Charges:
             filtered = [q for q in p.TimeTariffIntervals if q != self]
-            self._Charges._TimeTariffIntervals = filtered
+            p._TimeTariffIntervals = filtered
+        self._Charges = []
         for r in value:
             if self not in r._TimeTariffIntervals:
                 r._TimeTariffIntervals.append(self)
-        self._Charges = value
+            if r not in self._Charges:
+                self._Charges.append(r)
 
     Charges = property(getCharges, setCharges)
 
diff --git a/CIM14/IEC61968/PaymentMetering/Transactor.py b/CIM14/IEC61968/PaymentMetering/Transactor.py
index ca8afd0..fa8e117 100644
--- a/CIM14/IEC61968/PaymentMetering/Transactor.py
+++ b/CIM14/IEC61968/PaymentMetering/Transactor.py
@@ -49,11 +49,13 @@ class Transactor(IdentifiedObject):
     def setMerchantAccounts(self, value):
         for p in self._MerchantAccounts:
             filtered = [q for q in p.Transactors if q != self]
-            self._MerchantAccounts._Transactors = filtered
+            p._Transactors = filtered
+        self._MerchantAccounts = []
         for r in value:
             if self not in r._Transactors:
                 r._Transactors.append(self)
-        self._MerchantAccounts = value
+            if r not in self._MerchantAccounts:
+                self._MerchantAccounts.append(r)
 
     MerchantAccounts = property(getMerchantAccounts, setMerchantAccounts)
 
diff --git a/CIM14/IEC61968/Work/Work.py b/CIM14/IEC61968/Work/Work.py
index 80451ca..8fe3f36 100644
--- a/CIM14/IEC61968/Work/Work.py
+++ b/CIM14/IEC61968/Work/Work.py
@@ -61,11 +61,13 @@ class Work(Document):
     def setCustomers(self, value):
         for p in self._Customers:
             filtered = [q for q in p.Works if q != self]
-            self._Customers._Works = filtered
+            p._Works = filtered
+        self._Customers = []
         for r in value:
             if self not in r._Works:
                 r._Works.append(self)
-        self._Customers = value
+            if r not in self._Customers:
+                self._Customers.append(r)
 
     Customers = property(getCustomers, setCustomers)
 
diff --git a/CIM14/IEC61970/Core/ConductingEquipment.py b/CIM14/IEC61970/Core/ConductingEquipment.py
index dec8477..634397c 100644
--- a/CIM14/IEC61970/Core/ConductingEquipment.py
+++ b/CIM14/IEC61970/Core/ConductingEquipment.py
@@ -146,11 +146,13 @@ class ConductingEquipment(Equipment):
     def setProtectionEquipments(self, value):
         for p in self._ProtectionEquipments:
             filtered = [q for q in p.ConductingEquipments if q != self]
-            self._ProtectionEquipments._ConductingEquipments = filtered
+            p._ConductingEquipments = filtered
+        self._ProtectionEquipments = []
         for r in value:
             if self not in r._ConductingEquipments:
                 r._ConductingEquipments.append(self)
-        self._ProtectionEquipments = value
+            if r not in self._ProtectionEquipments:
+                self._ProtectionEquipments.append(r)
 
     ProtectionEquipments = property(getProtectionEquipments, setProtectionEquipments)
 
diff --git a/CIM14/IEC61970/Core/Equipment.py b/CIM14/IEC61970/Core/Equipment.py
index 9650159..385b769 100644
--- a/CIM14/IEC61970/Core/Equipment.py
+++ b/CIM14/IEC61970/Core/Equipment.py
@@ -129,11 +129,13 @@ class Equipment(PowerSystemResource):
     def setCustomerAgreements(self, value):
         for p in self._CustomerAgreements:
             filtered = [q for q in p.Equipments if q != self]
-            self._CustomerAgreements._Equipments = filtered
+            p._Equipments = filtered
+        self._CustomerAgreements = []
         for r in value:
             if self not in r._Equipments:
                 r._Equipments.append(self)
-        self._CustomerAgreements = value
+            if r not in self._CustomerAgreements:
+                self._CustomerAgreements.append(r)
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
diff --git a/CIM14/IEC61970/Core/PowerSystemResource.py b/CIM14/IEC61970/Core/PowerSystemResource.py
index 22624c0..01f3189 100644
--- a/CIM14/IEC61970/Core/PowerSystemResource.py
+++ b/CIM14/IEC61970/Core/PowerSystemResource.py
@@ -98,11 +98,13 @@ class PowerSystemResource(IdentifiedObject):
     def setAssets(self, value):
         for p in self._Assets:
             filtered = [q for q in p.PowerSystemResources if q != self]
-            self._Assets._PowerSystemResources = filtered
+            p._PowerSystemResources = filtered
+        self._Assets = []
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
-        self._Assets = value
+            if r not in self._Assets:
+                self._Assets.append(r)
 
     Assets = property(getAssets, setAssets)
 
@@ -125,11 +127,13 @@ class PowerSystemResource(IdentifiedObject):
     def setPsrLists(self, value):
         for p in self._PsrLists:
             filtered = [q for q in p.PowerSystemResources if q != self]
-            self._PsrLists._PowerSystemResources = filtered
+            p._PowerSystemResources = filtered
+        self._PsrLists = []
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
-        self._PsrLists = value
+            if r not in self._PsrLists:
+                self._PsrLists.append(r)
 
     PsrLists = property(getPsrLists, setPsrLists)
 
@@ -213,11 +217,13 @@ class PowerSystemResource(IdentifiedObject):
     def setReportingGroup(self, value):
         for p in self._ReportingGroup:
             filtered = [q for q in p.PowerSystemResource if q != self]
-            self._ReportingGroup._PowerSystemResource = filtered
+            p._PowerSystemResource = filtered
+        self._ReportingGroup = []
         for r in value:
             if self not in r._PowerSystemResource:
                 r._PowerSystemResource.append(self)
-        self._ReportingGroup = value
+            if r not in self._ReportingGroup:
+                self._ReportingGroup.append(r)
 
     ReportingGroup = property(getReportingGroup, setReportingGroup)
 
diff --git a/CIM14/IEC61970/Core/PsrList.py b/CIM14/IEC61970/Core/PsrList.py
index 57cb5c2..580ed28 100644
--- a/CIM14/IEC61970/Core/PsrList.py
+++ b/CIM14/IEC61970/Core/PsrList.py
@@ -52,11 +52,13 @@ class PsrList(IdentifiedObject):
     def setPowerSystemResources(self, value):
         for p in self._PowerSystemResources:
             filtered = [q for q in p.PsrLists if q != self]
-            self._PowerSystemResources._PsrLists = filtered
+            p._PsrLists = filtered
+        self._PowerSystemResources = []
         for r in value:
             if self not in r._PsrLists:
                 r._PsrLists.append(self)
-        self._PowerSystemResources = value
+            if r not in self._PowerSystemResources:
+                self._PowerSystemResources.append(r)
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/IEC61970/Core/ReportingGroup.py b/CIM14/IEC61970/Core/ReportingGroup.py
index be045eb..29bb049 100644
--- a/CIM14/IEC61970/Core/ReportingGroup.py
+++ b/CIM14/IEC61970/Core/ReportingGroup.py
@@ -122,11 +122,13 @@ class ReportingGroup(IdentifiedObject):
     def setPowerSystemResource(self, value):
         for p in self._PowerSystemResource:
             filtered = [q for q in p.ReportingGroup if q != self]
-            self._PowerSystemResource._ReportingGroup = filtered
+            p._ReportingGroup = filtered
+        self._PowerSystemResource = []
         for r in value:
             if self not in r._ReportingGroup:
                 r._ReportingGroup.append(self)
-        self._PowerSystemResource = value
+            if r not in self._PowerSystemResource:
+                self._PowerSystemResource.append(r)
 
     PowerSystemResource = property(getPowerSystemResource, setPowerSystemResource)
 
diff --git a/CIM14/IEC61970/Dynamics/BlockOutputReference.py b/CIM14/IEC61970/Dynamics/BlockOutputReference.py
index 58b4b2a..fd5f441 100644
--- a/CIM14/IEC61970/Dynamics/BlockOutputReference.py
+++ b/CIM14/IEC61970/Dynamics/BlockOutputReference.py
@@ -68,11 +68,13 @@ class BlockOutputReference(MetaBlockConnectable):
     def setmetaBlockReference0(self, value):
         for p in self._metaBlockReference0:
             filtered = [q for q in p.blockOutputReference0 if q != self]
-            self._metaBlockReference0._blockOutputReference0 = filtered
+            p._blockOutputReference0 = filtered
+        self._metaBlockReference0 = []
         for r in value:
             if self not in r._blockOutputReference0:
                 r._blockOutputReference0.append(self)
-        self._metaBlockReference0 = value
+            if r not in self._metaBlockReference0:
+                self._metaBlockReference0.append(r)
 
     metaBlockReference0 = property(getmetaBlockReference0, setmetaBlockReference0)
 
diff --git a/CIM14/IEC61970/Dynamics/CompositeModel.py b/CIM14/IEC61970/Dynamics/CompositeModel.py
index 79ba127..6b0311f 100644
--- a/CIM14/IEC61970/Dynamics/CompositeModel.py
+++ b/CIM14/IEC61970/Dynamics/CompositeModel.py
@@ -46,11 +46,13 @@ class CompositeModel(Element):
     def setslotReference0(self, value):
         for p in self._slotReference0:
             filtered = [q for q in p.compositeModel0 if q != self]
-            self._slotReference0._compositeModel0 = filtered
+            p._compositeModel0 = filtered
+        self._slotReference0 = []
         for r in value:
             if self not in r._compositeModel0:
                 r._compositeModel0.append(self)
-        self._slotReference0 = value
+            if r not in self._slotReference0:
+                self._slotReference0.append(r)
 
     slotReference0 = property(getslotReference0, setslotReference0)
 
diff --git a/CIM14/IEC61970/Dynamics/Generators/GenEquiv.py b/CIM14/IEC61970/Dynamics/Generators/GenEquiv.py
index 74cd190..3a31240 100644
--- a/CIM14/IEC61970/Dynamics/Generators/GenEquiv.py
+++ b/CIM14/IEC61970/Dynamics/Generators/GenEquiv.py
@@ -52,11 +52,13 @@ class GenEquiv(RotatingMachine):
     def setsynchronousMachine0(self, value):
         for p in self._synchronousMachine0:
             filtered = [q for q in p.genEquiv0 if q != self]
-            self._synchronousMachine0._genEquiv0 = filtered
+            p._genEquiv0 = filtered
+        self._synchronousMachine0 = []
         for r in value:
             if self not in r._genEquiv0:
                 r._genEquiv0.append(self)
-        self._synchronousMachine0 = value
+            if r not in self._synchronousMachine0:
+                self._synchronousMachine0.append(r)
 
     synchronousMachine0 = property(getsynchronousMachine0, setsynchronousMachine0)
 
diff --git a/CIM14/IEC61970/Dynamics/Generators/GenLoad.py b/CIM14/IEC61970/Dynamics/Generators/GenLoad.py
index 7b717c9..072f393 100644
--- a/CIM14/IEC61970/Dynamics/Generators/GenLoad.py
+++ b/CIM14/IEC61970/Dynamics/Generators/GenLoad.py
@@ -48,11 +48,13 @@ class GenLoad(RegulatingCondEq):
     def setsynchronousMachine0(self, value):
         for p in self._synchronousMachine0:
             filtered = [q for q in p.genLoad0 if q != self]
-            self._synchronousMachine0._genLoad0 = filtered
+            p._genLoad0 = filtered
+        self._synchronousMachine0 = []
         for r in value:
             if self not in r._genLoad0:
                 r._genLoad0.append(self)
-        self._synchronousMachine0 = value
+            if r not in self._synchronousMachine0:
+                self._synchronousMachine0.append(r)
 
     synchronousMachine0 = property(getsynchronousMachine0, setsynchronousMachine0)
 
diff --git a/CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py b/CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py
index 2dca998..d21cb2b 100644
--- a/CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py
+++ b/CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py
@@ -48,11 +48,13 @@ class AggregateLoad(PowerSystemResource):
     def setenergyConsumer0(self, value):
         for p in self._energyConsumer0:
             filtered = [q for q in p.aggregateLoad0 if q != self]
-            self._energyConsumer0._aggregateLoad0 = filtered
+            p._aggregateLoad0 = filtered
+        self._energyConsumer0 = []
         for r in value:
             if self not in r._aggregateLoad0:
                 r._aggregateLoad0.append(self)
-        self._energyConsumer0 = value
+            if r not in self._energyConsumer0:
+                self._energyConsumer0.append(r)
 
     energyConsumer0 = property(getenergyConsumer0, setenergyConsumer0)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockReference.py b/CIM14/IEC61970/Dynamics/MetaBlockReference.py
index 6480d25..94a88d7 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockReference.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockReference.py
@@ -122,11 +122,13 @@ class MetaBlockReference(IdentifiedObject):
     def setblockOutputReference0(self, value):
         for p in self._blockOutputReference0:
             filtered = [q for q in p.metaBlockReference0 if q != self]
-            self._blockOutputReference0._metaBlockReference0 = filtered
+            p._metaBlockReference0 = filtered
+        self._blockOutputReference0 = []
         for r in value:
             if self not in r._metaBlockReference0:
                 r._metaBlockReference0.append(self)
-        self._blockOutputReference0 = value
+            if r not in self._blockOutputReference0:
+                self._blockOutputReference0.append(r)
 
     blockOutputReference0 = property(getblockOutputReference0, setblockOutputReference0)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockSignal.py b/CIM14/IEC61970/Dynamics/MetaBlockSignal.py
index 37eeb24..d4c685a 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockSignal.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockSignal.py
@@ -62,11 +62,13 @@ class MetaBlockSignal(IdentifiedObject):
     def setmetaBlockSignal1(self, value):
         for p in self._metaBlockSignal1:
             filtered = [q for q in p.metaBlockSignal if q != self]
-            self._metaBlockSignal1._metaBlockSignal = filtered
+            p._metaBlockSignal = filtered
+        self._metaBlockSignal1 = []
         for r in value:
             if self not in r._metaBlockSignal:
                 r._metaBlockSignal.append(self)
-        self._metaBlockSignal1 = value
+            if r not in self._metaBlockSignal1:
+                self._metaBlockSignal1.append(r)
 
     metaBlockSignal1 = property(getmetaBlockSignal1, setmetaBlockSignal1)
 
@@ -89,11 +91,13 @@ class MetaBlockSignal(IdentifiedObject):
     def setmetaBlockSignal(self, value):
         for p in self._metaBlockSignal:
             filtered = [q for q in p.metaBlockSignal1 if q != self]
-            self._metaBlockSignal._metaBlockSignal1 = filtered
+            p._metaBlockSignal1 = filtered
+        self._metaBlockSignal = []
         for r in value:
             if self not in r._metaBlockSignal1:
                 r._metaBlockSignal1.append(self)
-        self._metaBlockSignal = value
+            if r not in self._metaBlockSignal:
+                self._metaBlockSignal.append(r)
 
     metaBlockSignal = property(getmetaBlockSignal, setmetaBlockSignal)
 
diff --git a/CIM14/IEC61970/Dynamics/Motors/MechanicalLoad.py b/CIM14/IEC61970/Dynamics/Motors/MechanicalLoad.py
index 5d98b71..381eece 100644
--- a/CIM14/IEC61970/Dynamics/Motors/MechanicalLoad.py
+++ b/CIM14/IEC61970/Dynamics/Motors/MechanicalLoad.py
@@ -48,11 +48,13 @@ class MechanicalLoad(PowerSystemResource):
     def setrotatingMachine0(self, value):
         for p in self._rotatingMachine0:
             filtered = [q for q in p.mechanicalLoad0 if q != self]
-            self._rotatingMachine0._mechanicalLoad0 = filtered
+            p._mechanicalLoad0 = filtered
+        self._rotatingMachine0 = []
         for r in value:
             if self not in r._mechanicalLoad0:
                 r._mechanicalLoad0.append(self)
-        self._rotatingMachine0 = value
+            if r not in self._rotatingMachine0:
+                self._rotatingMachine0.append(r)
 
     rotatingMachine0 = property(getrotatingMachine0, setrotatingMachine0)
 
diff --git a/CIM14/IEC61970/Dynamics/RotatingMachine.py b/CIM14/IEC61970/Dynamics/RotatingMachine.py
index 5a1e1c6..ab61ed8 100644
--- a/CIM14/IEC61970/Dynamics/RotatingMachine.py
+++ b/CIM14/IEC61970/Dynamics/RotatingMachine.py
@@ -80,11 +80,13 @@ class RotatingMachine(RegulatingCondEq):
     def setmechanicalLoad0(self, value):
         for p in self._mechanicalLoad0:
             filtered = [q for q in p.rotatingMachine0 if q != self]
-            self._mechanicalLoad0._rotatingMachine0 = filtered
+            p._rotatingMachine0 = filtered
+        self._mechanicalLoad0 = []
         for r in value:
             if self not in r._rotatingMachine0:
                 r._rotatingMachine0.append(self)
-        self._mechanicalLoad0 = value
+            if r not in self._mechanicalLoad0:
+                self._mechanicalLoad0.append(r)
 
     mechanicalLoad0 = property(getmechanicalLoad0, setmechanicalLoad0)
 
diff --git a/CIM14/IEC61970/Dynamics/SlotReference.py b/CIM14/IEC61970/Dynamics/SlotReference.py
index 3940b5a..e7ef22e 100644
--- a/CIM14/IEC61970/Dynamics/SlotReference.py
+++ b/CIM14/IEC61970/Dynamics/SlotReference.py
@@ -93,11 +93,13 @@ class SlotReference(IdentifiedObject):
     def setcompositeModel0(self, value):
         for p in self._compositeModel0:
             filtered = [q for q in p.slotReference0 if q != self]
-            self._compositeModel0._slotReference0 = filtered
+            p._slotReference0 = filtered
+        self._compositeModel0 = []
         for r in value:
             if self not in r._slotReference0:
                 r._slotReference0.append(self)
-        self._compositeModel0 = value
+            if r not in self._compositeModel0:
+                self._compositeModel0.append(r)
 
     compositeModel0 = property(getcompositeModel0, setcompositeModel0)
 
diff --git a/CIM14/IEC61970/Dynamics/TurbineGovernors/GovHydro1.py b/CIM14/IEC61970/Dynamics/TurbineGovernors/GovHydro1.py
index ea49d18..15465f8 100644
--- a/CIM14/IEC61970/Dynamics/TurbineGovernors/GovHydro1.py
+++ b/CIM14/IEC61970/Dynamics/TurbineGovernors/GovHydro1.py
@@ -119,11 +119,13 @@ class GovHydro1(TurbineGovernor):
     def setsynchronousMachine0(self, value):
         for p in self._synchronousMachine0:
             filtered = [q for q in p.govHydro10 if q != self]
-            self._synchronousMachine0._govHydro10 = filtered
+            p._govHydro10 = filtered
+        self._synchronousMachine0 = []
         for r in value:
             if self not in r._govHydro10:
                 r._govHydro10.append(self)
-        self._synchronousMachine0 = value
+            if r not in self._synchronousMachine0:
+                self._synchronousMachine0.append(r)
 
     synchronousMachine0 = property(getsynchronousMachine0, setsynchronousMachine0)
 
diff --git a/CIM14/IEC61970/Generation/GenerationDynamics/PrimeMover.py b/CIM14/IEC61970/Generation/GenerationDynamics/PrimeMover.py
index e390fa0..808f247 100644
--- a/CIM14/IEC61970/Generation/GenerationDynamics/PrimeMover.py
+++ b/CIM14/IEC61970/Generation/GenerationDynamics/PrimeMover.py
@@ -53,11 +53,13 @@ class PrimeMover(PowerSystemResource):
     def setSynchronousMachines(self, value):
         for p in self._SynchronousMachines:
             filtered = [q for q in p.PrimeMovers if q != self]
-            self._SynchronousMachines._PrimeMovers = filtered
+            p._PrimeMovers = filtered
+        self._SynchronousMachines = []
         for r in value:
             if self not in r._PrimeMovers:
                 r._PrimeMovers.append(self)
-        self._SynchronousMachines = value
+            if r not in self._SynchronousMachines:
+                self._SynchronousMachines.append(r)
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
diff --git a/CIM14/IEC61970/Generation/GenerationDynamics/SteamSupply.py b/CIM14/IEC61970/Generation/GenerationDynamics/SteamSupply.py
index 75f083b..37edacb 100644
--- a/CIM14/IEC61970/Generation/GenerationDynamics/SteamSupply.py
+++ b/CIM14/IEC61970/Generation/GenerationDynamics/SteamSupply.py
@@ -53,11 +53,13 @@ class SteamSupply(PowerSystemResource):
     def setSteamTurbines(self, value):
         for p in self._SteamTurbines:
             filtered = [q for q in p.SteamSupplys if q != self]
-            self._SteamTurbines._SteamSupplys = filtered
+            p._SteamSupplys = filtered
+        self._SteamTurbines = []
         for r in value:
             if self not in r._SteamSupplys:
                 r._SteamSupplys.append(self)
-        self._SteamTurbines = value
+            if r not in self._SteamTurbines:
+                self._SteamTurbines.append(r)
 
     SteamTurbines = property(getSteamTurbines, setSteamTurbines)
 
diff --git a/CIM14/IEC61970/Generation/GenerationDynamics/SteamTurbine.py b/CIM14/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
index 142fa15..2126846 100644
--- a/CIM14/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
+++ b/CIM14/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
@@ -97,11 +97,13 @@ class SteamTurbine(PrimeMover):
     def setSteamSupplys(self, value):
         for p in self._SteamSupplys:
             filtered = [q for q in p.SteamTurbines if q != self]
-            self._SteamSupplys._SteamTurbines = filtered
+            p._SteamTurbines = filtered
+        self._SteamSupplys = []
         for r in value:
             if self not in r._SteamTurbines:
                 r._SteamTurbines.append(self)
-        self._SteamSupplys = value
+            if r not in self._SteamSupplys:
+                self._SteamSupplys.append(r)
 
     SteamSupplys = property(getSteamSupplys, setSteamSupplys)
 
diff --git a/CIM14/IEC61970/Meas/Accumulator.py b/CIM14/IEC61970/Meas/Accumulator.py
index 11b8b0c..83f3e43 100644
--- a/CIM14/IEC61970/Meas/Accumulator.py
+++ b/CIM14/IEC61970/Meas/Accumulator.py
@@ -57,11 +57,13 @@ class Accumulator(Measurement):
     def setLimitSets(self, value):
         for p in self._LimitSets:
             filtered = [q for q in p.Measurements if q != self]
-            self._LimitSets._Measurements = filtered
+            p._Measurements = filtered
+        self._LimitSets = []
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
-        self._LimitSets = value
+            if r not in self._LimitSets:
+                self._LimitSets.append(r)
 
     LimitSets = property(getLimitSets, setLimitSets)
 
diff --git a/CIM14/IEC61970/Meas/AccumulatorLimitSet.py b/CIM14/IEC61970/Meas/AccumulatorLimitSet.py
index 8f72a34..faba8fe 100644
--- a/CIM14/IEC61970/Meas/AccumulatorLimitSet.py
+++ b/CIM14/IEC61970/Meas/AccumulatorLimitSet.py
@@ -53,11 +53,13 @@ class AccumulatorLimitSet(LimitSet):
     def setMeasurements(self, value):
         for p in self._Measurements:
             filtered = [q for q in p.LimitSets if q != self]
-            self._Measurements._LimitSets = filtered
+            p._LimitSets = filtered
+        self._Measurements = []
         for r in value:
             if self not in r._LimitSets:
                 r._LimitSets.append(self)
-        self._Measurements = value
+            if r not in self._Measurements:
+                self._Measurements.append(r)
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM14/IEC61970/Meas/Analog.py b/CIM14/IEC61970/Meas/Analog.py
index a285304..5f246b1 100644
--- a/CIM14/IEC61970/Meas/Analog.py
+++ b/CIM14/IEC61970/Meas/Analog.py
@@ -73,11 +73,13 @@ class Analog(Measurement):
     def setLimitSets(self, value):
         for p in self._LimitSets:
             filtered = [q for q in p.Measurements if q != self]
-            self._LimitSets._Measurements = filtered
+            p._Measurements = filtered
+        self._LimitSets = []
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
-        self._LimitSets = value
+            if r not in self._LimitSets:
+                self._LimitSets.append(r)
 
     LimitSets = property(getLimitSets, setLimitSets)
 
diff --git a/CIM14/IEC61970/Meas/AnalogLimitSet.py b/CIM14/IEC61970/Meas/AnalogLimitSet.py
index 4ffaad9..7b42553 100644
--- a/CIM14/IEC61970/Meas/AnalogLimitSet.py
+++ b/CIM14/IEC61970/Meas/AnalogLimitSet.py
@@ -53,11 +53,13 @@ class AnalogLimitSet(LimitSet):
     def setMeasurements(self, value):
         for p in self._Measurements:
             filtered = [q for q in p.LimitSets if q != self]
-            self._Measurements._LimitSets = filtered
+            p._LimitSets = filtered
+        self._Measurements = []
         for r in value:
             if self not in r._LimitSets:
                 r._LimitSets.append(self)
-        self._Measurements = value
+            if r not in self._Measurements:
+                self._Measurements.append(r)
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM14/IEC61970/Meas/Measurement.py b/CIM14/IEC61970/Meas/Measurement.py
index cc880e3..4e4ffc9 100644
--- a/CIM14/IEC61970/Meas/Measurement.py
+++ b/CIM14/IEC61970/Meas/Measurement.py
@@ -93,11 +93,13 @@ class Measurement(IdentifiedObject):
     def setLocations(self, value):
         for p in self._Locations:
             filtered = [q for q in p.Measurements if q != self]
-            self._Locations._Measurements = filtered
+            p._Measurements = filtered
+        self._Locations = []
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
-        self._Locations = value
+            if r not in self._Locations:
+                self._Locations.append(r)
 
     Locations = property(getLocations, setLocations)
 
@@ -192,11 +194,13 @@ class Measurement(IdentifiedObject):
     def setDocuments(self, value):
         for p in self._Documents:
             filtered = [q for q in p.Measurements if q != self]
-            self._Documents._Measurements = filtered
+            p._Measurements = filtered
+        self._Documents = []
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
-        self._Documents = value
+            if r not in self._Documents:
+                self._Documents.append(r)
 
     Documents = property(getDocuments, setDocuments)
 
diff --git a/CIM14/IEC61970/Outage/SwitchingOperation.py b/CIM14/IEC61970/Outage/SwitchingOperation.py
index a9182df..abca745 100644
--- a/CIM14/IEC61970/Outage/SwitchingOperation.py
+++ b/CIM14/IEC61970/Outage/SwitchingOperation.py
@@ -61,11 +61,13 @@ class SwitchingOperation(IdentifiedObject):
     def setSwitches(self, value):
         for p in self._Switches:
             filtered = [q for q in p.SwitchingOperations if q != self]
-            self._Switches._SwitchingOperations = filtered
+            p._SwitchingOperations = filtered
+        self._Switches = []
         for r in value:
             if self not in r._SwitchingOperations:
                 r._SwitchingOperations.append(self)
-        self._Switches = value
+            if r not in self._Switches:
+                self._Switches.append(r)
 
     Switches = property(getSwitches, setSwitches)
 
diff --git a/CIM14/IEC61970/Protection/ProtectionEquipment.py b/CIM14/IEC61970/Protection/ProtectionEquipment.py
index 48e9032..3303fcc 100644
--- a/CIM14/IEC61970/Protection/ProtectionEquipment.py
+++ b/CIM14/IEC61970/Protection/ProtectionEquipment.py
@@ -97,11 +97,13 @@ class ProtectionEquipment(Equipment):
     def setConductingEquipments(self, value):
         for p in self._ConductingEquipments:
             filtered = [q for q in p.ProtectionEquipments if q != self]
-            self._ConductingEquipments._ProtectionEquipments = filtered
+            p._ProtectionEquipments = filtered
+        self._ConductingEquipments = []
         for r in value:
             if self not in r._ProtectionEquipments:
                 r._ProtectionEquipments.append(self)
-        self._ConductingEquipments = value
+            if r not in self._ConductingEquipments:
+                self._ConductingEquipments.append(r)
 
     ConductingEquipments = property(getConductingEquipments, setConductingEquipments)
 
diff --git a/CIM14/IEC61970/SCADA/CommunicationLink.py b/CIM14/IEC61970/SCADA/CommunicationLink.py
index c6cdbb4..5b8ddfe 100644
--- a/CIM14/IEC61970/SCADA/CommunicationLink.py
+++ b/CIM14/IEC61970/SCADA/CommunicationLink.py
@@ -49,11 +49,13 @@ class CommunicationLink(PowerSystemResource):
     def setRemoteUnits(self, value):
         for p in self._RemoteUnits:
             filtered = [q for q in p.CommunicationLinks if q != self]
-            self._RemoteUnits._CommunicationLinks = filtered
+            p._CommunicationLinks = filtered
+        self._RemoteUnits = []
         for r in value:
             if self not in r._CommunicationLinks:
                 r._CommunicationLinks.append(self)
-        self._RemoteUnits = value
+            if r not in self._RemoteUnits:
+                self._RemoteUnits.append(r)
 
     RemoteUnits = property(getRemoteUnits, setRemoteUnits)
 
diff --git a/CIM14/IEC61970/SCADA/RemoteUnit.py b/CIM14/IEC61970/SCADA/RemoteUnit.py
index c262a10..fc35fbc 100644
--- a/CIM14/IEC61970/SCADA/RemoteUnit.py
+++ b/CIM14/IEC61970/SCADA/RemoteUnit.py
@@ -57,11 +57,13 @@ class RemoteUnit(PowerSystemResource):
     def setCommunicationLinks(self, value):
         for p in self._CommunicationLinks:
             filtered = [q for q in p.RemoteUnits if q != self]
-            self._CommunicationLinks._RemoteUnits = filtered
+            p._RemoteUnits = filtered
+        self._CommunicationLinks = []
         for r in value:
             if self not in r._RemoteUnits:
                 r._RemoteUnits.append(self)
-        self._CommunicationLinks = value
+            if r not in self._CommunicationLinks:
+                self._CommunicationLinks.append(r)
 
     CommunicationLinks = property(getCommunicationLinks, setCommunicationLinks)
 
diff --git a/CIM14/IEC61970/Wires/EnergyConsumer.py b/CIM14/IEC61970/Wires/EnergyConsumer.py
index c85186a..b93e644 100644
--- a/CIM14/IEC61970/Wires/EnergyConsumer.py
+++ b/CIM14/IEC61970/Wires/EnergyConsumer.py
@@ -80,11 +80,13 @@ class EnergyConsumer(ConductingEquipment):
     def setaggregateLoad0(self, value):
         for p in self._aggregateLoad0:
             filtered = [q for q in p.energyConsumer0 if q != self]
-            self._aggregateLoad0._energyConsumer0 = filtered
+            p._energyConsumer0 = filtered
+        self._aggregateLoad0 = []
         for r in value:
             if self not in r._energyConsumer0:
                 r._energyConsumer0.append(self)
-        self._aggregateLoad0 = value
+            if r not in self._aggregateLoad0:
+                self._aggregateLoad0.append(r)
 
     aggregateLoad0 = property(getaggregateLoad0, setaggregateLoad0)
 
diff --git a/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py b/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py
index 1e0c4dc..b66efcb 100644
--- a/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py
+++ b/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py
@@ -83,11 +83,13 @@ class ReactiveCapabilityCurve(Curve):
     def setSynchronousMachines(self, value):
         for p in self._SynchronousMachines:
             filtered = [q for q in p.ReactiveCapabilityCurves if q != self]
-            self._SynchronousMachines._ReactiveCapabilityCurves = filtered
+            p._ReactiveCapabilityCurves = filtered
+        self._SynchronousMachines = []
         for r in value:
             if self not in r._ReactiveCapabilityCurves:
                 r._ReactiveCapabilityCurves.append(self)
-        self._SynchronousMachines = value
+            if r not in self._SynchronousMachines:
+                self._SynchronousMachines.append(r)
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
diff --git a/CIM14/IEC61970/Wires/Switch.py b/CIM14/IEC61970/Wires/Switch.py
index 0c11f45..8aaf527 100644
--- a/CIM14/IEC61970/Wires/Switch.py
+++ b/CIM14/IEC61970/Wires/Switch.py
@@ -77,11 +77,13 @@ class Switch(ConductingEquipment):
     def setSwitchingOperations(self, value):
         for p in self._SwitchingOperations:
             filtered = [q for q in p.Switches if q != self]
-            self._SwitchingOperations._Switches = filtered
+            p._Switches = filtered
+        self._SwitchingOperations = []
         for r in value:
             if self not in r._Switches:
                 r._Switches.append(self)
-        self._SwitchingOperations = value
+            if r not in self._SwitchingOperations:
+                self._SwitchingOperations.append(r)
 
     SwitchingOperations = property(getSwitchingOperations, setSwitchingOperations)
 
@@ -121,11 +123,13 @@ class Switch(ConductingEquipment):
     def setConnectDisconnectFunctions(self, value):
         for p in self._ConnectDisconnectFunctions:
             filtered = [q for q in p.Switches if q != self]
-            self._ConnectDisconnectFunctions._Switches = filtered
+            p._Switches = filtered
+        self._ConnectDisconnectFunctions = []
         for r in value:
             if self not in r._Switches:
                 r._Switches.append(self)
-        self._ConnectDisconnectFunctions = value
+            if r not in self._ConnectDisconnectFunctions:
+                self._ConnectDisconnectFunctions.append(r)
 
     ConnectDisconnectFunctions = property(getConnectDisconnectFunctions, setConnectDisconnectFunctions)
 
diff --git a/CIM14/IEC61970/Wires/SynchronousMachine.py b/CIM14/IEC61970/Wires/SynchronousMachine.py
index 6ae7d98..aa53168 100644
--- a/CIM14/IEC61970/Wires/SynchronousMachine.py
+++ b/CIM14/IEC61970/Wires/SynchronousMachine.py
@@ -192,11 +192,13 @@ class SynchronousMachine(RotatingMachine):
     def setgenLoad0(self, value):
         for p in self._genLoad0:
             filtered = [q for q in p.synchronousMachine0 if q != self]
-            self._genLoad0._synchronousMachine0 = filtered
+            p._synchronousMachine0 = filtered
+        self._genLoad0 = []
         for r in value:
             if self not in r._synchronousMachine0:
                 r._synchronousMachine0.append(self)
-        self._genLoad0 = value
+            if r not in self._genLoad0:
+                self._genLoad0.append(r)
 
     genLoad0 = property(getgenLoad0, setgenLoad0)
 
@@ -252,11 +254,13 @@ class SynchronousMachine(RotatingMachine):
     def setgovHydro10(self, value):
         for p in self._govHydro10:
             filtered = [q for q in p.synchronousMachine0 if q != self]
-            self._govHydro10._synchronousMachine0 = filtered
+            p._synchronousMachine0 = filtered
+        self._govHydro10 = []
         for r in value:
             if self not in r._synchronousMachine0:
                 r._synchronousMachine0.append(self)
-        self._govHydro10 = value
+            if r not in self._govHydro10:
+                self._govHydro10.append(r)
 
     govHydro10 = property(getgovHydro10, setgovHydro10)
 
@@ -280,11 +284,13 @@ class SynchronousMachine(RotatingMachine):
     def setPrimeMovers(self, value):
         for p in self._PrimeMovers:
             filtered = [q for q in p.SynchronousMachines if q != self]
-            self._PrimeMovers._SynchronousMachines = filtered
+            p._SynchronousMachines = filtered
+        self._PrimeMovers = []
         for r in value:
             if self not in r._SynchronousMachines:
                 r._SynchronousMachines.append(self)
-        self._PrimeMovers = value
+            if r not in self._PrimeMovers:
+                self._PrimeMovers.append(r)
 
     PrimeMovers = property(getPrimeMovers, setPrimeMovers)
 
@@ -324,11 +330,13 @@ class SynchronousMachine(RotatingMachine):
     def setgenEquiv0(self, value):
         for p in self._genEquiv0:
             filtered = [q for q in p.synchronousMachine0 if q != self]
-            self._genEquiv0._synchronousMachine0 = filtered
+            p._synchronousMachine0 = filtered
+        self._genEquiv0 = []
         for r in value:
             if self not in r._synchronousMachine0:
                 r._synchronousMachine0.append(self)
-        self._genEquiv0 = value
+            if r not in self._genEquiv0:
+                self._genEquiv0.append(r)
 
     genEquiv0 = property(getgenEquiv0, setgenEquiv0)
 
@@ -352,11 +360,13 @@ class SynchronousMachine(RotatingMachine):
     def setReactiveCapabilityCurves(self, value):
         for p in self._ReactiveCapabilityCurves:
             filtered = [q for q in p.SynchronousMachines if q != self]
-            self._ReactiveCapabilityCurves._SynchronousMachines = filtered
+            p._SynchronousMachines = filtered
+        self._ReactiveCapabilityCurves = []
         for r in value:
             if self not in r._SynchronousMachines:
                 r._SynchronousMachines.append(self)
-        self._ReactiveCapabilityCurves = value
+            if r not in self._ReactiveCapabilityCurves:
+                self._ReactiveCapabilityCurves.append(r)
 
     ReactiveCapabilityCurves = property(getReactiveCapabilityCurves, setReactiveCapabilityCurves)
 
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py
index 40f69e0..50f8c95 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py
@@ -83,11 +83,13 @@ class TransformerEnd(IdentifiedObject):
     def setToMeshImpedance(self, value):
         for p in self._ToMeshImpedance:
             filtered = [q for q in p.ToTransformerEnd if q != self]
-            self._ToMeshImpedance._ToTransformerEnd = filtered
+            p._ToTransformerEnd = filtered
+        self._ToMeshImpedance = []
         for r in value:
             if self not in r._ToTransformerEnd:
                 r._ToTransformerEnd.append(self)
-        self._ToMeshImpedance = value
+            if r not in self._ToMeshImpedance:
+                self._ToMeshImpedance.append(r)
 
     ToMeshImpedance = property(getToMeshImpedance, setToMeshImpedance)
 
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerMeshImpedance.py b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerMeshImpedance.py
index 3bfeb3c..36cc2cb 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerMeshImpedance.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerMeshImpedance.py
@@ -86,11 +86,13 @@ class TransformerMeshImpedance(IdentifiedObject):
     def setToTransformerEnd(self, value):
         for p in self._ToTransformerEnd:
             filtered = [q for q in p.ToMeshImpedance if q != self]
-            self._ToTransformerEnd._ToMeshImpedance = filtered
+            p._ToMeshImpedance = filtered
+        self._ToTransformerEnd = []
         for r in value:
             if self not in r._ToMeshImpedance:
                 r._ToMeshImpedance.append(self)
-        self._ToTransformerEnd = value
+            if r not in self._ToTransformerEnd:
+                self._ToTransformerEnd.append(r)
 
     ToTransformerEnd = property(getToTransformerEnd, setToTransformerEnd)
 
diff --git a/CIM15/IEC61968/AssetModels/ShortCircuitTest.py b/CIM15/IEC61968/AssetModels/ShortCircuitTest.py
index ffe0e4b..75f5bb6 100644
--- a/CIM15/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM15/IEC61968/AssetModels/ShortCircuitTest.py
@@ -77,11 +77,13 @@ class ShortCircuitTest(TransformerTest):
     def setGroundedEnds(self, value):
         for p in self._GroundedEnds:
             filtered = [q for q in p.GroundedEndShortCircuitTests if q != self]
-            self._GroundedEnds._GroundedEndShortCircuitTests = filtered
+            p._GroundedEndShortCircuitTests = filtered
+        self._GroundedEnds = []
         for r in value:
             if self not in r._GroundedEndShortCircuitTests:
                 r._GroundedEndShortCircuitTests.append(self)
-        self._GroundedEnds = value
+            if r not in self._GroundedEnds:
+                self._GroundedEnds.append(r)
 
     GroundedEnds = property(getGroundedEnds, setGroundedEnds)
 
diff --git a/CIM15/IEC61968/AssetModels/TransformerEndInfo.py b/CIM15/IEC61968/AssetModels/TransformerEndInfo.py
index f2079b2..07a12c1 100644
--- a/CIM15/IEC61968/AssetModels/TransformerEndInfo.py
+++ b/CIM15/IEC61968/AssetModels/TransformerEndInfo.py
@@ -187,11 +187,13 @@ class TransformerEndInfo(AssetInfo):
     def setToMeshImpedance(self, value):
         for p in self._ToMeshImpedance:
             filtered = [q for q in p.ToTransformerEndInfo if q != self]
-            self._ToMeshImpedance._ToTransformerEndInfo = filtered
+            p._ToTransformerEndInfo = filtered
+        self._ToMeshImpedance = []
         for r in value:
             if self not in r._ToTransformerEndInfo:
                 r._ToTransformerEndInfo.append(self)
-        self._ToMeshImpedance = value
+            if r not in self._ToMeshImpedance:
+                self._ToMeshImpedance.append(r)
 
     ToMeshImpedance = property(getToMeshImpedance, setToMeshImpedance)
 
@@ -276,11 +278,13 @@ class TransformerEndInfo(AssetInfo):
     def setGroundedEndShortCircuitTests(self, value):
         for p in self._GroundedEndShortCircuitTests:
             filtered = [q for q in p.GroundedEnds if q != self]
-            self._GroundedEndShortCircuitTests._GroundedEnds = filtered
+            p._GroundedEnds = filtered
+        self._GroundedEndShortCircuitTests = []
         for r in value:
             if self not in r._GroundedEnds:
                 r._GroundedEnds.append(self)
-        self._GroundedEndShortCircuitTests = value
+            if r not in self._GroundedEndShortCircuitTests:
+                self._GroundedEndShortCircuitTests.append(r)
 
     GroundedEndShortCircuitTests = property(getGroundedEndShortCircuitTests, setGroundedEndShortCircuitTests)
 
diff --git a/CIM15/IEC61968/Assets/Asset.py b/CIM15/IEC61968/Assets/Asset.py
index 1b3c0ef..0084c92 100644
--- a/CIM15/IEC61968/Assets/Asset.py
+++ b/CIM15/IEC61968/Assets/Asset.py
@@ -214,11 +214,13 @@ class Asset(IdentifiedObject):
     def setMediums(self, value):
         for p in self._Mediums:
             filtered = [q for q in p.Assets if q != self]
-            self._Mediums._Assets = filtered
+            p._Assets = filtered
+        self._Mediums = []
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
-        self._Mediums = value
+            if r not in self._Mediums:
+                self._Mediums.append(r)
 
     Mediums = property(getMediums, setMediums)
 
@@ -241,11 +243,13 @@ class Asset(IdentifiedObject):
     def setErpRecDeliveryItems(self, value):
         for p in self._ErpRecDeliveryItems:
             filtered = [q for q in p.Assets if q != self]
-            self._ErpRecDeliveryItems._Assets = filtered
+            p._Assets = filtered
+        self._ErpRecDeliveryItems = []
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
-        self._ErpRecDeliveryItems = value
+            if r not in self._ErpRecDeliveryItems:
+                self._ErpRecDeliveryItems.append(r)
 
     ErpRecDeliveryItems = property(getErpRecDeliveryItems, setErpRecDeliveryItems)
 
@@ -269,11 +273,13 @@ class Asset(IdentifiedObject):
     def setRatings(self, value):
         for p in self._Ratings:
             filtered = [q for q in p.RatingAssets if q != self]
-            self._Ratings._RatingAssets = filtered
+            p._RatingAssets = filtered
+        self._Ratings = []
         for r in value:
             if self not in r._RatingAssets:
                 r._RatingAssets.append(self)
-        self._Ratings = value
+            if r not in self._Ratings:
+                self._Ratings.append(r)
 
     Ratings = property(getRatings, setRatings)
 
@@ -392,11 +398,13 @@ class Asset(IdentifiedObject):
     def setReliabilityInfos(self, value):
         for p in self._ReliabilityInfos:
             filtered = [q for q in p.Assets if q != self]
-            self._ReliabilityInfos._Assets = filtered
+            p._Assets = filtered
+        self._ReliabilityInfos = []
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
-        self._ReliabilityInfos = value
+            if r not in self._ReliabilityInfos:
+                self._ReliabilityInfos.append(r)
 
     ReliabilityInfos = property(getReliabilityInfos, setReliabilityInfos)
 
@@ -475,11 +483,13 @@ class Asset(IdentifiedObject):
     def setScheduledEvents(self, value):
         for p in self._ScheduledEvents:
             filtered = [q for q in p.Assets if q != self]
-            self._ScheduledEvents._Assets = filtered
+            p._Assets = filtered
+        self._ScheduledEvents = []
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
-        self._ScheduledEvents = value
+            if r not in self._ScheduledEvents:
+                self._ScheduledEvents.append(r)
 
     ScheduledEvents = property(getScheduledEvents, setScheduledEvents)
 
@@ -518,11 +528,13 @@ class Asset(IdentifiedObject):
     def setAssetPropertyCurves(self, value):
         for p in self._AssetPropertyCurves:
             filtered = [q for q in p.Assets if q != self]
-            self._AssetPropertyCurves._Assets = filtered
+            p._Assets = filtered
+        self._AssetPropertyCurves = []
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
-        self._AssetPropertyCurves = value
+            if r not in self._AssetPropertyCurves:
+                self._AssetPropertyCurves.append(r)
 
     AssetPropertyCurves = property(getAssetPropertyCurves, setAssetPropertyCurves)
 
@@ -567,11 +579,13 @@ class Asset(IdentifiedObject):
     def setActivityRecords(self, value):
         for p in self._ActivityRecords:
             filtered = [q for q in p.Assets if q != self]
-            self._ActivityRecords._Assets = filtered
+            p._Assets = filtered
+        self._ActivityRecords = []
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
-        self._ActivityRecords = value
+            if r not in self._ActivityRecords:
+                self._ActivityRecords.append(r)
 
     ActivityRecords = property(getActivityRecords, setActivityRecords)
 
@@ -615,11 +629,13 @@ class Asset(IdentifiedObject):
     def setPowerSystemResources(self, value):
         for p in self._PowerSystemResources:
             filtered = [q for q in p.Assets if q != self]
-            self._PowerSystemResources._Assets = filtered
+            p._Assets = filtered
+        self._PowerSystemResources = []
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
-        self._PowerSystemResources = value
+            if r not in self._PowerSystemResources:
+                self._PowerSystemResources.append(r)
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
@@ -658,11 +674,13 @@ class Asset(IdentifiedObject):
     def setProperties(self, value):
         for p in self._Properties:
             filtered = [q for q in p.PropertyAssets if q != self]
-            self._Properties._PropertyAssets = filtered
+            p._PropertyAssets = filtered
+        self._Properties = []
         for r in value:
             if self not in r._PropertyAssets:
                 r._PropertyAssets.append(self)
-        self._Properties = value
+            if r not in self._Properties:
+                self._Properties.append(r)
 
     Properties = property(getProperties, setProperties)
 
diff --git a/CIM15/IEC61968/Assets/AssetContainer.py b/CIM15/IEC61968/Assets/AssetContainer.py
index 7532ad7..6133d28 100644
--- a/CIM15/IEC61968/Assets/AssetContainer.py
+++ b/CIM15/IEC61968/Assets/AssetContainer.py
@@ -99,11 +99,13 @@ class AssetContainer(Asset):
     def setLandProperties(self, value):
         for p in self._LandProperties:
             filtered = [q for q in p.AssetContainers if q != self]
-            self._LandProperties._AssetContainers = filtered
+            p._AssetContainers = filtered
+        self._LandProperties = []
         for r in value:
             if self not in r._AssetContainers:
                 r._AssetContainers.append(self)
-        self._LandProperties = value
+            if r not in self._LandProperties:
+                self._LandProperties.append(r)
 
     LandProperties = property(getLandProperties, setLandProperties)
 
diff --git a/CIM15/IEC61968/Common/ActivityRecord.py b/CIM15/IEC61968/Common/ActivityRecord.py
index 3112a71..8f987d7 100644
--- a/CIM15/IEC61968/Common/ActivityRecord.py
+++ b/CIM15/IEC61968/Common/ActivityRecord.py
@@ -83,11 +83,13 @@ class ActivityRecord(IdentifiedObject):
     def setErpPersons(self, value):
         for p in self._ErpPersons:
             filtered = [q for q in p.ActivityRecords if q != self]
-            self._ErpPersons._ActivityRecords = filtered
+            p._ActivityRecords = filtered
+        self._ErpPersons = []
         for r in value:
             if self not in r._ActivityRecords:
                 r._ActivityRecords.append(self)
-        self._ErpPersons = value
+            if r not in self._ErpPersons:
+                self._ErpPersons.append(r)
 
     ErpPersons = property(getErpPersons, setErpPersons)
 
@@ -110,11 +112,13 @@ class ActivityRecord(IdentifiedObject):
     def setOrganisations(self, value):
         for p in self._Organisations:
             filtered = [q for q in p.ActivityRecords if q != self]
-            self._Organisations._ActivityRecords = filtered
+            p._ActivityRecords = filtered
+        self._Organisations = []
         for r in value:
             if self not in r._ActivityRecords:
                 r._ActivityRecords.append(self)
-        self._Organisations = value
+            if r not in self._Organisations:
+                self._Organisations.append(r)
 
     Organisations = property(getOrganisations, setOrganisations)
 
@@ -138,11 +142,13 @@ class ActivityRecord(IdentifiedObject):
     def setDocuments(self, value):
         for p in self._Documents:
             filtered = [q for q in p.ActivityRecords if q != self]
-            self._Documents._ActivityRecords = filtered
+            p._ActivityRecords = filtered
+        self._Documents = []
         for r in value:
             if self not in r._ActivityRecords:
                 r._ActivityRecords.append(self)
-        self._Documents = value
+            if r not in self._Documents:
+                self._Documents.append(r)
 
     Documents = property(getDocuments, setDocuments)
 
@@ -166,11 +172,13 @@ class ActivityRecord(IdentifiedObject):
     def setAssets(self, value):
         for p in self._Assets:
             filtered = [q for q in p.ActivityRecords if q != self]
-            self._Assets._ActivityRecords = filtered
+            p._ActivityRecords = filtered
+        self._Assets = []
         for r in value:
             if self not in r._ActivityRecords:
                 r._ActivityRecords.append(self)
-        self._Assets = value
+            if r not in self._Assets:
+                self._Assets.append(r)
 
     Assets = property(getAssets, setAssets)
 
diff --git a/CIM15/IEC61968/Common/CoordinateSystem.py b/CIM15/IEC61968/Common/CoordinateSystem.py
index c8c781b..5521faa 100644
--- a/CIM15/IEC61968/Common/CoordinateSystem.py
+++ b/CIM15/IEC61968/Common/CoordinateSystem.py
@@ -103,11 +103,13 @@ class CoordinateSystem(IdentifiedObject):
     def setGmlDiagramObjects(self, value):
         for p in self._GmlDiagramObjects:
             filtered = [q for q in p.CoordinateSystems if q != self]
-            self._GmlDiagramObjects._CoordinateSystems = filtered
+            p._CoordinateSystems = filtered
+        self._GmlDiagramObjects = []
         for r in value:
             if self not in r._CoordinateSystems:
                 r._CoordinateSystems.append(self)
-        self._GmlDiagramObjects = value
+            if r not in self._GmlDiagramObjects:
+                self._GmlDiagramObjects.append(r)
 
     GmlDiagramObjects = property(getGmlDiagramObjects, setGmlDiagramObjects)
 
diff --git a/CIM15/IEC61968/Common/Document.py b/CIM15/IEC61968/Common/Document.py
index 1c89cc7..63fb149 100644
--- a/CIM15/IEC61968/Common/Document.py
+++ b/CIM15/IEC61968/Common/Document.py
@@ -174,11 +174,13 @@ class Document(IdentifiedObject):
     def setNetworkDataSets(self, value):
         for p in self._NetworkDataSets:
             filtered = [q for q in p.Documents if q != self]
-            self._NetworkDataSets._Documents = filtered
+            p._Documents = filtered
+        self._NetworkDataSets = []
         for r in value:
             if self not in r._Documents:
                 r._Documents.append(self)
-        self._NetworkDataSets = value
+            if r not in self._NetworkDataSets:
+                self._NetworkDataSets.append(r)
 
     NetworkDataSets = property(getNetworkDataSets, setNetworkDataSets)
 
@@ -222,11 +224,13 @@ class Document(IdentifiedObject):
     def setScheduleParameterInfos(self, value):
         for p in self._ScheduleParameterInfos:
             filtered = [q for q in p.Documents if q != self]
-            self._ScheduleParameterInfos._Documents = filtered
+            p._Documents = filtered
+        self._ScheduleParameterInfos = []
         for r in value:
             if self not in r._Documents:
                 r._Documents.append(self)
-        self._ScheduleParameterInfos = value
+            if r not in self._ScheduleParameterInfos:
+                self._ScheduleParameterInfos.append(r)
 
     ScheduleParameterInfos = property(getScheduleParameterInfos, setScheduleParameterInfos)
 
@@ -271,11 +275,13 @@ class Document(IdentifiedObject):
     def setMeasurements(self, value):
         for p in self._Measurements:
             filtered = [q for q in p.Documents if q != self]
-            self._Measurements._Documents = filtered
+            p._Documents = filtered
+        self._Measurements = []
         for r in value:
             if self not in r._Documents:
                 r._Documents.append(self)
-        self._Measurements = value
+            if r not in self._Measurements:
+                self._Measurements.append(r)
 
     Measurements = property(getMeasurements, setMeasurements)
 
@@ -299,11 +305,13 @@ class Document(IdentifiedObject):
     def setActivityRecords(self, value):
         for p in self._ActivityRecords:
             filtered = [q for q in p.Documents if q != self]
-            self._ActivityRecords._Documents = filtered
+            p._Documents = filtered
+        self._ActivityRecords = []
         for r in value:
             if self not in r._Documents:
                 r._Documents.append(self)
-        self._ActivityRecords = value
+            if r not in self._ActivityRecords:
+                self._ActivityRecords.append(r)
 
     ActivityRecords = property(getActivityRecords, setActivityRecords)
 
@@ -326,11 +334,13 @@ class Document(IdentifiedObject):
     def setChangeSets(self, value):
         for p in self._ChangeSets:
             filtered = [q for q in p.Documents if q != self]
-            self._ChangeSets._Documents = filtered
+            p._Documents = filtered
+        self._ChangeSets = []
         for r in value:
             if self not in r._Documents:
                 r._Documents.append(self)
-        self._ChangeSets = value
+            if r not in self._ChangeSets:
+                self._ChangeSets.append(r)
 
     ChangeSets = property(getChangeSets, setChangeSets)
 
diff --git a/CIM15/IEC61968/Common/Location.py b/CIM15/IEC61968/Common/Location.py
index 5b413ad..9368a63 100644
--- a/CIM15/IEC61968/Common/Location.py
+++ b/CIM15/IEC61968/Common/Location.py
@@ -189,11 +189,13 @@ class Location(IdentifiedObject):
     def setRedLines(self, value):
         for p in self._RedLines:
             filtered = [q for q in p.Locations if q != self]
-            self._RedLines._Locations = filtered
+            p._Locations = filtered
+        self._RedLines = []
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
-        self._RedLines = value
+            if r not in self._RedLines:
+                self._RedLines.append(r)
 
     RedLines = property(getRedLines, setRedLines)
 
@@ -232,11 +234,13 @@ class Location(IdentifiedObject):
     def setLandProperties(self, value):
         for p in self._LandProperties:
             filtered = [q for q in p.Locations if q != self]
-            self._LandProperties._Locations = filtered
+            p._Locations = filtered
+        self._LandProperties = []
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
-        self._LandProperties = value
+            if r not in self._LandProperties:
+                self._LandProperties.append(r)
 
     LandProperties = property(getLandProperties, setLandProperties)
 
@@ -281,11 +285,13 @@ class Location(IdentifiedObject):
     def setHazards(self, value):
         for p in self._Hazards:
             filtered = [q for q in p.Locations if q != self]
-            self._Hazards._Locations = filtered
+            p._Locations = filtered
+        self._Hazards = []
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
-        self._Hazards = value
+            if r not in self._Hazards:
+                self._Hazards.append(r)
 
     Hazards = property(getHazards, setHazards)
 
@@ -311,11 +317,13 @@ class Location(IdentifiedObject):
     def setCrews(self, value):
         for p in self._Crews:
             filtered = [q for q in p.Locations if q != self]
-            self._Crews._Locations = filtered
+            p._Locations = filtered
+        self._Crews = []
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
-        self._Crews = value
+            if r not in self._Crews:
+                self._Crews.append(r)
 
     Crews = property(getCrews, setCrews)
 
@@ -384,11 +392,13 @@ class Location(IdentifiedObject):
     def setMeasurements(self, value):
         for p in self._Measurements:
             filtered = [q for q in p.Locations if q != self]
-            self._Measurements._Locations = filtered
+            p._Locations = filtered
+        self._Measurements = []
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
-        self._Measurements = value
+            if r not in self._Measurements:
+                self._Measurements.append(r)
 
     Measurements = property(getMeasurements, setMeasurements)
 
@@ -411,11 +421,13 @@ class Location(IdentifiedObject):
     def setRoutes(self, value):
         for p in self._Routes:
             filtered = [q for q in p.Locations if q != self]
-            self._Routes._Locations = filtered
+            p._Locations = filtered
+        self._Routes = []
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
-        self._Routes = value
+            if r not in self._Routes:
+                self._Routes.append(r)
 
     Routes = property(getRoutes, setRoutes)
 
@@ -455,11 +467,13 @@ class Location(IdentifiedObject):
     def setErpOrganisations(self, value):
         for p in self._ErpOrganisations:
             filtered = [q for q in p.Locations if q != self]
-            self._ErpOrganisations._Locations = filtered
+            p._Locations = filtered
+        self._ErpOrganisations = []
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
-        self._ErpOrganisations = value
+            if r not in self._ErpOrganisations:
+                self._ErpOrganisations.append(r)
 
     ErpOrganisations = property(getErpOrganisations, setErpOrganisations)
 
diff --git a/CIM15/IEC61968/Common/Organisation.py b/CIM15/IEC61968/Common/Organisation.py
index 6ffd5a6..876db7f 100644
--- a/CIM15/IEC61968/Common/Organisation.py
+++ b/CIM15/IEC61968/Common/Organisation.py
@@ -78,11 +78,13 @@ class Organisation(IdentifiedObject):
     def setBusinessRoles(self, value):
         for p in self._BusinessRoles:
             filtered = [q for q in p.Organisations if q != self]
-            self._BusinessRoles._Organisations = filtered
+            p._Organisations = filtered
+        self._BusinessRoles = []
         for r in value:
             if self not in r._Organisations:
                 r._Organisations.append(self)
-        self._BusinessRoles = value
+            if r not in self._BusinessRoles:
+                self._BusinessRoles.append(r)
 
     BusinessRoles = property(getBusinessRoles, setBusinessRoles)
 
diff --git a/CIM15/IEC61968/Common/UserAttribute.py b/CIM15/IEC61968/Common/UserAttribute.py
index 6309cdf..cc5851e 100644
--- a/CIM15/IEC61968/Common/UserAttribute.py
+++ b/CIM15/IEC61968/Common/UserAttribute.py
@@ -92,11 +92,13 @@ class UserAttribute(Element):
     def setErpLedgerEntries(self, value):
         for p in self._ErpLedgerEntries:
             filtered = [q for q in p.UserAttributes if q != self]
-            self._ErpLedgerEntries._UserAttributes = filtered
+            p._UserAttributes = filtered
+        self._ErpLedgerEntries = []
         for r in value:
             if self not in r._UserAttributes:
                 r._UserAttributes.append(self)
-        self._ErpLedgerEntries = value
+            if r not in self._ErpLedgerEntries:
+                self._ErpLedgerEntries.append(r)
 
     ErpLedgerEntries = property(getErpLedgerEntries, setErpLedgerEntries)
 
@@ -119,11 +121,13 @@ class UserAttribute(Element):
     def setProcedureDataSets(self, value):
         for p in self._ProcedureDataSets:
             filtered = [q for q in p.Properties if q != self]
-            self._ProcedureDataSets._Properties = filtered
+            p._Properties = filtered
+        self._ProcedureDataSets = []
         for r in value:
             if self not in r._Properties:
                 r._Properties.append(self)
-        self._ProcedureDataSets = value
+            if r not in self._ProcedureDataSets:
+                self._ProcedureDataSets.append(r)
 
     ProcedureDataSets = property(getProcedureDataSets, setProcedureDataSets)
 
@@ -195,11 +199,13 @@ class UserAttribute(Element):
     def setPropertyAssets(self, value):
         for p in self._PropertyAssets:
             filtered = [q for q in p.Properties if q != self]
-            self._PropertyAssets._Properties = filtered
+            p._Properties = filtered
+        self._PropertyAssets = []
         for r in value:
             if self not in r._Properties:
                 r._Properties.append(self)
-        self._PropertyAssets = value
+            if r not in self._PropertyAssets:
+                self._PropertyAssets.append(r)
 
     PropertyAssets = property(getPropertyAssets, setPropertyAssets)
 
@@ -238,11 +244,13 @@ class UserAttribute(Element):
     def setErpInvoiceLineItems(self, value):
         for p in self._ErpInvoiceLineItems:
             filtered = [q for q in p.UserAttributes if q != self]
-            self._ErpInvoiceLineItems._UserAttributes = filtered
+            p._UserAttributes = filtered
+        self._ErpInvoiceLineItems = []
         for r in value:
             if self not in r._UserAttributes:
                 r._UserAttributes.append(self)
-        self._ErpInvoiceLineItems = value
+            if r not in self._ErpInvoiceLineItems:
+                self._ErpInvoiceLineItems.append(r)
 
     ErpInvoiceLineItems = property(getErpInvoiceLineItems, setErpInvoiceLineItems)
 
@@ -265,11 +273,13 @@ class UserAttribute(Element):
     def setRatingAssets(self, value):
         for p in self._RatingAssets:
             filtered = [q for q in p.Ratings if q != self]
-            self._RatingAssets._Ratings = filtered
+            p._Ratings = filtered
+        self._RatingAssets = []
         for r in value:
             if self not in r._Ratings:
                 r._Ratings.append(self)
-        self._RatingAssets = value
+            if r not in self._RatingAssets:
+                self._RatingAssets.append(r)
 
     RatingAssets = property(getRatingAssets, setRatingAssets)
 
diff --git a/CIM15/IEC61968/Customers/Customer.py b/CIM15/IEC61968/Customers/Customer.py
index fcea1f6..61682fb 100644
--- a/CIM15/IEC61968/Customers/Customer.py
+++ b/CIM15/IEC61968/Customers/Customer.py
@@ -157,11 +157,13 @@ class Customer(Organisation):
     def setWorks(self, value):
         for p in self._Works:
             filtered = [q for q in p.Customers if q != self]
-            self._Works._Customers = filtered
+            p._Customers = filtered
+        self._Works = []
         for r in value:
             if self not in r._Customers:
                 r._Customers.append(self)
-        self._Works = value
+            if r not in self._Works:
+                self._Works.append(r)
 
     Works = property(getWorks, setWorks)
 
@@ -203,11 +205,13 @@ class Customer(Organisation):
     def setOutageNotifications(self, value):
         for p in self._OutageNotifications:
             filtered = [q for q in p.CustomerDatas if q != self]
-            self._OutageNotifications._CustomerDatas = filtered
+            p._CustomerDatas = filtered
+        self._OutageNotifications = []
         for r in value:
             if self not in r._CustomerDatas:
                 r._CustomerDatas.append(self)
-        self._OutageNotifications = value
+            if r not in self._OutageNotifications:
+                self._OutageNotifications.append(r)
 
     OutageNotifications = property(getOutageNotifications, setOutageNotifications)
 
diff --git a/CIM15/IEC61968/Customers/CustomerAgreement.py b/CIM15/IEC61968/Customers/CustomerAgreement.py
index d528407..cde11ea 100644
--- a/CIM15/IEC61968/Customers/CustomerAgreement.py
+++ b/CIM15/IEC61968/Customers/CustomerAgreement.py
@@ -105,11 +105,13 @@ class CustomerAgreement(Agreement):
     def setPricingStructures(self, value):
         for p in self._PricingStructures:
             filtered = [q for q in p.CustomerAgreements if q != self]
-            self._PricingStructures._CustomerAgreements = filtered
+            p._CustomerAgreements = filtered
+        self._PricingStructures = []
         for r in value:
             if self not in r._CustomerAgreements:
                 r._CustomerAgreements.append(self)
-        self._PricingStructures = value
+            if r not in self._PricingStructures:
+                self._PricingStructures.append(r)
 
     PricingStructures = property(getPricingStructures, setPricingStructures)
 
@@ -209,11 +211,13 @@ class CustomerAgreement(Agreement):
     def setEquipments(self, value):
         for p in self._Equipments:
             filtered = [q for q in p.CustomerAgreements if q != self]
-            self._Equipments._CustomerAgreements = filtered
+            p._CustomerAgreements = filtered
+        self._Equipments = []
         for r in value:
             if self not in r._CustomerAgreements:
                 r._CustomerAgreements.append(self)
-        self._Equipments = value
+            if r not in self._Equipments:
+                self._Equipments.append(r)
 
     Equipments = property(getEquipments, setEquipments)
 
@@ -254,11 +258,13 @@ class CustomerAgreement(Agreement):
     def setServiceLocations(self, value):
         for p in self._ServiceLocations:
             filtered = [q for q in p.CustomerAgreements if q != self]
-            self._ServiceLocations._CustomerAgreements = filtered
+            p._CustomerAgreements = filtered
+        self._ServiceLocations = []
         for r in value:
             if self not in r._CustomerAgreements:
                 r._CustomerAgreements.append(self)
-        self._ServiceLocations = value
+            if r not in self._ServiceLocations:
+                self._ServiceLocations.append(r)
 
     ServiceLocations = property(getServiceLocations, setServiceLocations)
 
diff --git a/CIM15/IEC61968/Customers/PricingStructure.py b/CIM15/IEC61968/Customers/PricingStructure.py
index 49c52fa..f1dcf59 100644
--- a/CIM15/IEC61968/Customers/PricingStructure.py
+++ b/CIM15/IEC61968/Customers/PricingStructure.py
@@ -106,11 +106,13 @@ class PricingStructure(Document):
     def setCustomerAgreements(self, value):
         for p in self._CustomerAgreements:
             filtered = [q for q in p.PricingStructures if q != self]
-            self._CustomerAgreements._PricingStructures = filtered
+            p._PricingStructures = filtered
+        self._CustomerAgreements = []
         for r in value:
             if self not in r._PricingStructures:
                 r._PricingStructures.append(self)
-        self._CustomerAgreements = value
+            if r not in self._CustomerAgreements:
+                self._CustomerAgreements.append(r)
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
@@ -134,11 +136,13 @@ class PricingStructure(Document):
     def setServiceDeliveryPoints(self, value):
         for p in self._ServiceDeliveryPoints:
             filtered = [q for q in p.PricingStructures if q != self]
-            self._ServiceDeliveryPoints._PricingStructures = filtered
+            p._PricingStructures = filtered
+        self._ServiceDeliveryPoints = []
         for r in value:
             if self not in r._PricingStructures:
                 r._PricingStructures.append(self)
-        self._ServiceDeliveryPoints = value
+            if r not in self._ServiceDeliveryPoints:
+                self._ServiceDeliveryPoints.append(r)
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
@@ -162,11 +166,13 @@ class PricingStructure(Document):
     def setTariffs(self, value):
         for p in self._Tariffs:
             filtered = [q for q in p.PricingStructures if q != self]
-            self._Tariffs._PricingStructures = filtered
+            p._PricingStructures = filtered
+        self._Tariffs = []
         for r in value:
             if self not in r._PricingStructures:
                 r._PricingStructures.append(self)
-        self._Tariffs = value
+            if r not in self._Tariffs:
+                self._Tariffs.append(r)
 
     Tariffs = property(getTariffs, setTariffs)
 
diff --git a/CIM15/IEC61968/Customers/ServiceLocation.py b/CIM15/IEC61968/Customers/ServiceLocation.py
index 1355d5d..8c518b3 100644
--- a/CIM15/IEC61968/Customers/ServiceLocation.py
+++ b/CIM15/IEC61968/Customers/ServiceLocation.py
@@ -138,11 +138,13 @@ class ServiceLocation(Location):
     def setCustomerAgreements(self, value):
         for p in self._CustomerAgreements:
             filtered = [q for q in p.ServiceLocations if q != self]
-            self._CustomerAgreements._ServiceLocations = filtered
+            p._ServiceLocations = filtered
+        self._CustomerAgreements = []
         for r in value:
             if self not in r._ServiceLocations:
                 r._ServiceLocations.append(self)
-        self._CustomerAgreements = value
+            if r not in self._CustomerAgreements:
+                self._CustomerAgreements.append(r)
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
diff --git a/CIM15/IEC61968/Customers/Tariff.py b/CIM15/IEC61968/Customers/Tariff.py
index 6a59879..890c7f0 100644
--- a/CIM15/IEC61968/Customers/Tariff.py
+++ b/CIM15/IEC61968/Customers/Tariff.py
@@ -61,11 +61,13 @@ class Tariff(Document):
     def setPricingStructures(self, value):
         for p in self._PricingStructures:
             filtered = [q for q in p.Tariffs if q != self]
-            self._PricingStructures._Tariffs = filtered
+            p._Tariffs = filtered
+        self._PricingStructures = []
         for r in value:
             if self not in r._Tariffs:
                 r._Tariffs.append(self)
-        self._PricingStructures = value
+            if r not in self._PricingStructures:
+                self._PricingStructures.append(r)
 
     PricingStructures = property(getPricingStructures, setPricingStructures)
 
@@ -89,11 +91,13 @@ class Tariff(Document):
     def setTariffProfiles(self, value):
         for p in self._TariffProfiles:
             filtered = [q for q in p.Tariffs if q != self]
-            self._TariffProfiles._Tariffs = filtered
+            p._Tariffs = filtered
+        self._TariffProfiles = []
         for r in value:
             if self not in r._Tariffs:
                 r._Tariffs.append(self)
-        self._TariffProfiles = value
+            if r not in self._TariffProfiles:
+                self._TariffProfiles.append(r)
 
     TariffProfiles = property(getTariffProfiles, setTariffProfiles)
 
diff --git a/CIM15/IEC61968/LoadControl/ConnectDisconnectFunction.py b/CIM15/IEC61968/LoadControl/ConnectDisconnectFunction.py
index 047d890..986a173 100644
--- a/CIM15/IEC61968/LoadControl/ConnectDisconnectFunction.py
+++ b/CIM15/IEC61968/LoadControl/ConnectDisconnectFunction.py
@@ -82,11 +82,13 @@ class ConnectDisconnectFunction(EndDeviceFunction):
     def setSwitches(self, value):
         for p in self._Switches:
             filtered = [q for q in p.ConnectDisconnectFunctions if q != self]
-            self._Switches._ConnectDisconnectFunctions = filtered
+            p._ConnectDisconnectFunctions = filtered
+        self._Switches = []
         for r in value:
             if self not in r._ConnectDisconnectFunctions:
                 r._ConnectDisconnectFunctions.append(self)
-        self._Switches = value
+            if r not in self._Switches:
+                self._Switches.append(r)
 
     Switches = property(getSwitches, setSwitches)
 
diff --git a/CIM15/IEC61968/Metering/EndDevice.py b/CIM15/IEC61968/Metering/EndDevice.py
index ac712b7..bf1b46a 100644
--- a/CIM15/IEC61968/Metering/EndDevice.py
+++ b/CIM15/IEC61968/Metering/EndDevice.py
@@ -193,11 +193,13 @@ class EndDevice(AssetContainer):
     def setEndDeviceGroups(self, value):
         for p in self._EndDeviceGroups:
             filtered = [q for q in p.EndDevices if q != self]
-            self._EndDeviceGroups._EndDevices = filtered
+            p._EndDevices = filtered
+        self._EndDeviceGroups = []
         for r in value:
             if self not in r._EndDevices:
                 r._EndDevices.append(self)
-        self._EndDeviceGroups = value
+            if r not in self._EndDeviceGroups:
+                self._EndDeviceGroups.append(r)
 
     EndDeviceGroups = property(getEndDeviceGroups, setEndDeviceGroups)
 
diff --git a/CIM15/IEC61968/Metering/EndDeviceGroup.py b/CIM15/IEC61968/Metering/EndDeviceGroup.py
index 9f3e97f..28c0923 100644
--- a/CIM15/IEC61968/Metering/EndDeviceGroup.py
+++ b/CIM15/IEC61968/Metering/EndDeviceGroup.py
@@ -83,11 +83,13 @@ class EndDeviceGroup(IdentifiedObject):
     def setEndDevices(self, value):
         for p in self._EndDevices:
             filtered = [q for q in p.EndDeviceGroups if q != self]
-            self._EndDevices._EndDeviceGroups = filtered
+            p._EndDeviceGroups = filtered
+        self._EndDevices = []
         for r in value:
             if self not in r._EndDeviceGroups:
                 r._EndDeviceGroups.append(self)
-        self._EndDevices = value
+            if r not in self._EndDevices:
+                self._EndDevices.append(r)
 
     EndDevices = property(getEndDevices, setEndDevices)
 
diff --git a/CIM15/IEC61968/Metering/IntervalBlock.py b/CIM15/IEC61968/Metering/IntervalBlock.py
index 1acaca6..60e46a6 100644
--- a/CIM15/IEC61968/Metering/IntervalBlock.py
+++ b/CIM15/IEC61968/Metering/IntervalBlock.py
@@ -78,11 +78,13 @@ class IntervalBlock(Element):
     def setIntervalReadings(self, value):
         for p in self._IntervalReadings:
             filtered = [q for q in p.IntervalBlocks if q != self]
-            self._IntervalReadings._IntervalBlocks = filtered
+            p._IntervalBlocks = filtered
+        self._IntervalReadings = []
         for r in value:
             if self not in r._IntervalBlocks:
                 r._IntervalBlocks.append(self)
-        self._IntervalReadings = value
+            if r not in self._IntervalReadings:
+                self._IntervalReadings.append(r)
 
     IntervalReadings = property(getIntervalReadings, setIntervalReadings)
 
diff --git a/CIM15/IEC61968/Metering/IntervalReading.py b/CIM15/IEC61968/Metering/IntervalReading.py
index 9c73b23..ecd5c09 100644
--- a/CIM15/IEC61968/Metering/IntervalReading.py
+++ b/CIM15/IEC61968/Metering/IntervalReading.py
@@ -57,11 +57,13 @@ class IntervalReading(MeasurementValue):
     def setIntervalBlocks(self, value):
         for p in self._IntervalBlocks:
             filtered = [q for q in p.IntervalReadings if q != self]
-            self._IntervalBlocks._IntervalReadings = filtered
+            p._IntervalReadings = filtered
+        self._IntervalBlocks = []
         for r in value:
             if self not in r._IntervalReadings:
                 r._IntervalReadings.append(self)
-        self._IntervalBlocks = value
+            if r not in self._IntervalBlocks:
+                self._IntervalBlocks.append(r)
 
     IntervalBlocks = property(getIntervalBlocks, setIntervalBlocks)
 
diff --git a/CIM15/IEC61968/Metering/MeterReading.py b/CIM15/IEC61968/Metering/MeterReading.py
index 8fc07d6..7928c9b 100644
--- a/CIM15/IEC61968/Metering/MeterReading.py
+++ b/CIM15/IEC61968/Metering/MeterReading.py
@@ -114,11 +114,13 @@ class MeterReading(IdentifiedObject):
     def setReadings(self, value):
         for p in self._Readings:
             filtered = [q for q in p.MeterReadings if q != self]
-            self._Readings._MeterReadings = filtered
+            p._MeterReadings = filtered
+        self._Readings = []
         for r in value:
             if self not in r._MeterReadings:
                 r._MeterReadings.append(self)
-        self._Readings = value
+            if r not in self._Readings:
+                self._Readings.append(r)
 
     Readings = property(getReadings, setReadings)
 
diff --git a/CIM15/IEC61968/Metering/Reading.py b/CIM15/IEC61968/Metering/Reading.py
index 708244b..00ca6a8 100644
--- a/CIM15/IEC61968/Metering/Reading.py
+++ b/CIM15/IEC61968/Metering/Reading.py
@@ -78,11 +78,13 @@ class Reading(MeasurementValue):
     def setMeterReadings(self, value):
         for p in self._MeterReadings:
             filtered = [q for q in p.Readings if q != self]
-            self._MeterReadings._Readings = filtered
+            p._Readings = filtered
+        self._MeterReadings = []
         for r in value:
             if self not in r._Readings:
                 r._Readings.append(self)
-        self._MeterReadings = value
+            if r not in self._MeterReadings:
+                self._MeterReadings.append(r)
 
     MeterReadings = property(getMeterReadings, setMeterReadings)
 
diff --git a/CIM15/IEC61968/Metering/SDPLocation.py b/CIM15/IEC61968/Metering/SDPLocation.py
index aa12a7e..a600343 100644
--- a/CIM15/IEC61968/Metering/SDPLocation.py
+++ b/CIM15/IEC61968/Metering/SDPLocation.py
@@ -65,11 +65,13 @@ class SDPLocation(Location):
     def setServiceDeliveryPoints(self, value):
         for p in self._ServiceDeliveryPoints:
             filtered = [q for q in p.SDPLocations if q != self]
-            self._ServiceDeliveryPoints._SDPLocations = filtered
+            p._SDPLocations = filtered
+        self._ServiceDeliveryPoints = []
         for r in value:
             if self not in r._SDPLocations:
                 r._SDPLocations.append(self)
-        self._ServiceDeliveryPoints = value
+            if r not in self._ServiceDeliveryPoints:
+                self._ServiceDeliveryPoints.append(r)
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
diff --git a/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py b/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py
index 351158d..bdac267 100644
--- a/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py
+++ b/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py
@@ -125,11 +125,13 @@ class ServiceDeliveryPoint(IdentifiedObject):
     def setSDPLocations(self, value):
         for p in self._SDPLocations:
             filtered = [q for q in p.ServiceDeliveryPoints if q != self]
-            self._SDPLocations._ServiceDeliveryPoints = filtered
+            p._ServiceDeliveryPoints = filtered
+        self._SDPLocations = []
         for r in value:
             if self not in r._ServiceDeliveryPoints:
                 r._ServiceDeliveryPoints.append(self)
-        self._SDPLocations = value
+            if r not in self._SDPLocations:
+                self._SDPLocations.append(r)
 
     SDPLocations = property(getSDPLocations, setSDPLocations)
 
@@ -231,11 +233,13 @@ class ServiceDeliveryPoint(IdentifiedObject):
     def setPricingStructures(self, value):
         for p in self._PricingStructures:
             filtered = [q for q in p.ServiceDeliveryPoints if q != self]
-            self._PricingStructures._ServiceDeliveryPoints = filtered
+            p._ServiceDeliveryPoints = filtered
+        self._PricingStructures = []
         for r in value:
             if self not in r._ServiceDeliveryPoints:
                 r._ServiceDeliveryPoints.append(self)
-        self._PricingStructures = value
+            if r not in self._PricingStructures:
+                self._PricingStructures.append(r)
 
     PricingStructures = property(getPricingStructures, setPricingStructures)
 
diff --git a/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py b/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py
index 9a73443..06e474e 100644
--- a/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py
+++ b/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py
@@ -99,11 +99,13 @@ class AuxiliaryAccount(Document):
     def setCharges(self, value):
         for p in self._Charges:
             filtered = [q for q in p.AuxiliaryAccounts if q != self]
-            self._Charges._AuxiliaryAccounts = filtered
+            p._AuxiliaryAccounts = filtered
+        self._Charges = []
         for r in value:
             if self not in r._AuxiliaryAccounts:
                 r._AuxiliaryAccounts.append(self)
-        self._Charges = value
+            if r not in self._Charges:
+                self._Charges.append(r)
 
     Charges = property(getCharges, setCharges)
 
diff --git a/CIM15/IEC61968/PaymentMetering/Charge.py b/CIM15/IEC61968/PaymentMetering/Charge.py
index f45ef80..2ab1b27 100644
--- a/CIM15/IEC61968/PaymentMetering/Charge.py
+++ b/CIM15/IEC61968/PaymentMetering/Charge.py
@@ -76,11 +76,13 @@ class Charge(IdentifiedObject):
     def setConsumptionTariffIntervals(self, value):
         for p in self._ConsumptionTariffIntervals:
             filtered = [q for q in p.Charges if q != self]
-            self._ConsumptionTariffIntervals._Charges = filtered
+            p._Charges = filtered
+        self._ConsumptionTariffIntervals = []
         for r in value:
             if self not in r._Charges:
                 r._Charges.append(self)
-        self._ConsumptionTariffIntervals = value
+            if r not in self._ConsumptionTariffIntervals:
+                self._ConsumptionTariffIntervals.append(r)
 
     ConsumptionTariffIntervals = property(getConsumptionTariffIntervals, setConsumptionTariffIntervals)
 
@@ -104,11 +106,13 @@ class Charge(IdentifiedObject):
     def setTimeTariffIntervals(self, value):
         for p in self._TimeTariffIntervals:
             filtered = [q for q in p.Charges if q != self]
-            self._TimeTariffIntervals._Charges = filtered
+            p._Charges = filtered
+        self._TimeTariffIntervals = []
         for r in value:
             if self not in r._Charges:
                 r._Charges.append(self)
-        self._TimeTariffIntervals = value
+            if r not in self._TimeTariffIntervals:
+                self._TimeTariffIntervals.append(r)
 
     TimeTariffIntervals = property(getTimeTariffIntervals, setTimeTariffIntervals)
 
@@ -132,11 +136,13 @@ class Charge(IdentifiedObject):
     def setAuxiliaryAccounts(self, value):
         for p in self._AuxiliaryAccounts:
             filtered = [q for q in p.Charges if q != self]
-            self._AuxiliaryAccounts._Charges = filtered
+            p._Charges = filtered
+        self._AuxiliaryAccounts = []
         for r in value:
             if self not in r._Charges:
                 r._Charges.append(self)
-        self._AuxiliaryAccounts = value
+            if r not in self._AuxiliaryAccounts:
+                self._AuxiliaryAccounts.append(r)
 
     AuxiliaryAccounts = property(getAuxiliaryAccounts, setAuxiliaryAccounts)
 
diff --git a/CIM15/IEC61968/PaymentMetering/ConsumptionTariffInterval.py b/CIM15/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
index d4cea16..3255f5f 100644
--- a/CIM15/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
+++ b/CIM15/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
@@ -65,11 +65,13 @@ class ConsumptionTariffInterval(Element):
     def setCharges(self, value):
         for p in self._Charges:
             filtered = [q for q in p.ConsumptionTariffIntervals if q != self]
-            self._Charges._ConsumptionTariffIntervals = filtered
+            p._ConsumptionTariffIntervals = filtered
+        self._Charges = []
         for r in value:
             if self not in r._ConsumptionTariffIntervals:
                 r._ConsumptionTariffIntervals.append(self)
-        self._Charges = value
+            if r not in self._Charges:
+                self._Charges.append(r)
 
     Charges = property(getCharges, setCharges)
 
@@ -93,11 +95,13 @@ class ConsumptionTariffInterval(Element):
     def setTariffProfiles(self, value):
         for p in self._TariffProfiles:
             filtered = [q for q in p.ConsumptionTariffIntervals if q != self]
-            self._TariffProfiles._ConsumptionTariffIntervals = filtered
+            p._ConsumptionTariffIntervals = filtered
+        self._TariffProfiles = []
         for r in value:
             if self not in r._ConsumptionTariffIntervals:
                 r._ConsumptionTariffIntervals.append(self)
-        self._TariffProfiles = value
+            if r not in self._TariffProfiles:
+                self._TariffProfiles.append(r)
 
     TariffProfiles = property(getTariffProfiles, setTariffProfiles)
 
@@ -121,11 +125,13 @@ class ConsumptionTariffInterval(Element):
     def setTouTariffIntervals(self, value):
         for p in self._TouTariffIntervals:
             filtered = [q for q in p.ConsumptionTariffIntervals if q != self]
-            self._TouTariffIntervals._ConsumptionTariffIntervals = filtered
+            p._ConsumptionTariffIntervals = filtered
+        self._TouTariffIntervals = []
         for r in value:
             if self not in r._ConsumptionTariffIntervals:
                 r._ConsumptionTariffIntervals.append(self)
-        self._TouTariffIntervals = value
+            if r not in self._TouTariffIntervals:
+                self._TouTariffIntervals.append(r)
 
     TouTariffIntervals = property(getTouTariffIntervals, setTouTariffIntervals)
 
diff --git a/CIM15/IEC61968/PaymentMetering/MerchantAccount.py b/CIM15/IEC61968/PaymentMetering/MerchantAccount.py
index 1614247..f1e6f94 100644
--- a/CIM15/IEC61968/PaymentMetering/MerchantAccount.py
+++ b/CIM15/IEC61968/PaymentMetering/MerchantAccount.py
@@ -82,11 +82,13 @@ class MerchantAccount(Document):
     def setTransactors(self, value):
         for p in self._Transactors:
             filtered = [q for q in p.MerchantAccounts if q != self]
-            self._Transactors._MerchantAccounts = filtered
+            p._MerchantAccounts = filtered
+        self._Transactors = []
         for r in value:
             if self not in r._MerchantAccounts:
                 r._MerchantAccounts.append(self)
-        self._Transactors = value
+            if r not in self._Transactors:
+                self._Transactors.append(r)
 
     Transactors = property(getTransactors, setTransactors)
 
diff --git a/CIM15/IEC61968/PaymentMetering/TariffProfile.py b/CIM15/IEC61968/PaymentMetering/TariffProfile.py
index 41744d8..c956390 100644
--- a/CIM15/IEC61968/PaymentMetering/TariffProfile.py
+++ b/CIM15/IEC61968/PaymentMetering/TariffProfile.py
@@ -61,11 +61,13 @@ class TariffProfile(Document):
     def setTariffs(self, value):
         for p in self._Tariffs:
             filtered = [q for q in p.TariffProfiles if q != self]
-            self._Tariffs._TariffProfiles = filtered
+            p._TariffProfiles = filtered
+        self._Tariffs = []
         for r in value:
             if self not in r._TariffProfiles:
                 r._TariffProfiles.append(self)
-        self._Tariffs = value
+            if r not in self._Tariffs:
+                self._Tariffs.append(r)
 
     Tariffs = property(getTariffs, setTariffs)
 
@@ -89,11 +91,13 @@ class TariffProfile(Document):
     def setConsumptionTariffIntervals(self, value):
         for p in self._ConsumptionTariffIntervals:
             filtered = [q for q in p.TariffProfiles if q != self]
-            self._ConsumptionTariffIntervals._TariffProfiles = filtered
+            p._TariffProfiles = filtered
+        self._ConsumptionTariffIntervals = []
         for r in value:
             if self not in r._TariffProfiles:
                 r._TariffProfiles.append(self)
-        self._ConsumptionTariffIntervals = value
+            if r not in self._ConsumptionTariffIntervals:
+                self._ConsumptionTariffIntervals.append(r)
 
     ConsumptionTariffIntervals = property(getConsumptionTariffIntervals, setConsumptionTariffIntervals)
 
@@ -117,11 +121,13 @@ class TariffProfile(Document):
     def setTimeTariffIntervals(self, value):
         for p in self._TimeTariffIntervals:
             filtered = [q for q in p.TariffProfiles if q != self]
-            self._TimeTariffIntervals._TariffProfiles = filtered
+            p._TariffProfiles = filtered
+        self._TimeTariffIntervals = []
         for r in value:
             if self not in r._TariffProfiles:
                 r._TariffProfiles.append(self)
-        self._TimeTariffIntervals = value
+            if r not in self._TimeTariffIntervals:
+                self._TimeTariffIntervals.append(r)
 
     TimeTariffIntervals = property(getTimeTariffIntervals, setTimeTariffIntervals)
 
diff --git a/CIM15/IEC61968/PaymentMetering/TimeTariffInterval.py b/CIM15/IEC61968/PaymentMetering/TimeTariffInterval.py
index 1b17ee3..54f3865 100644
--- a/CIM15/IEC61968/PaymentMetering/TimeTariffInterval.py
+++ b/CIM15/IEC61968/PaymentMetering/TimeTariffInterval.py
@@ -65,11 +65,13 @@ class TimeTariffInterval(Element):
     def setConsumptionTariffIntervals(self, value):
         for p in self._ConsumptionTariffIntervals:
             filtered = [q for q in p.TouTariffIntervals if q != self]
-            self._ConsumptionTariffIntervals._TouTariffIntervals = filtered
+            p._TouTariffIntervals = filtered
+        self._ConsumptionTariffIntervals = []
         for r in value:
             if self not in r._TouTariffIntervals:
                 r._TouTariffIntervals.append(self)
-        self._ConsumptionTariffIntervals = value
+            if r not in self._ConsumptionTariffIntervals:
+                self._ConsumptionTariffIntervals.append(r)
 
     ConsumptionTariffIntervals = property(getConsumptionTariffIntervals, setConsumptionTariffIntervals)
 
@@ -93,11 +95,13 @@ class TimeTariffInterval(Element):
     def setTariffProfiles(self, value):
         for p in self._TariffProfiles:
             filtered = [q for q in p.TimeTariffIntervals if q != self]
-            self._TariffProfiles._TimeTariffIntervals = filtered
+            p._TimeTariffIntervals = filtered
+        self._TariffProfiles = []
         for r in value:
             if self not in r._TimeTariffIntervals:
                 r._TimeTariffIntervals.append(self)
-        self._TariffProfiles = value
+            if r not in self._TariffProfiles:
+                self._TariffProfiles.append(r)
 
     TariffProfiles = property(getTariffProfiles, setTariffProfiles)
 
@@ -121,11 +125,13 @@ class TimeTariffInterval(Element):
     def setCharges(self, value):
         for p in self._Charges:
             filtered = [q for q in p.TimeTariffIntervals if q != self]
-            self._Charges._TimeTariffIntervals = filtered
+            p._TimeTariffIntervals = filtered
+        self._Charges = []
         for r in value:
             if self not in r._TimeTariffIntervals:
                 r._TimeTariffIntervals.append(self)
-        self._Charges = value
+            if r not in self._Charges:
+                self._Charges.append(r)
 
     Charges = property(getCharges, setCharges)
 
diff --git a/CIM15/IEC61968/PaymentMetering/Transactor.py b/CIM15/IEC61968/PaymentMetering/Transactor.py
index eeb18cd..1451c63 100644
--- a/CIM15/IEC61968/PaymentMetering/Transactor.py
+++ b/CIM15/IEC61968/PaymentMetering/Transactor.py
@@ -49,11 +49,13 @@ class Transactor(IdentifiedObject):
     def setMerchantAccounts(self, value):
         for p in self._MerchantAccounts:
             filtered = [q for q in p.Transactors if q != self]
-            self._MerchantAccounts._Transactors = filtered
+            p._Transactors = filtered
+        self._MerchantAccounts = []
         for r in value:
             if self not in r._Transactors:
                 r._Transactors.append(self)
-        self._MerchantAccounts = value
+            if r not in self._MerchantAccounts:
+                self._MerchantAccounts.append(r)
 
     MerchantAccounts = property(getMerchantAccounts, setMerchantAccounts)
 
diff --git a/CIM15/IEC61968/Work/Work.py b/CIM15/IEC61968/Work/Work.py
index d58fd42..15d9195 100644
--- a/CIM15/IEC61968/Work/Work.py
+++ b/CIM15/IEC61968/Work/Work.py
@@ -117,11 +117,13 @@ class Work(Document):
     def setWorkCostDetails(self, value):
         for p in self._WorkCostDetails:
             filtered = [q for q in p.Works if q != self]
-            self._WorkCostDetails._Works = filtered
+            p._Works = filtered
+        self._WorkCostDetails = []
         for r in value:
             if self not in r._Works:
                 r._Works.append(self)
-        self._WorkCostDetails = value
+            if r not in self._WorkCostDetails:
+                self._WorkCostDetails.append(r)
 
     WorkCostDetails = property(getWorkCostDetails, setWorkCostDetails)
 
@@ -267,11 +269,13 @@ class Work(Document):
     def setCustomers(self, value):
         for p in self._Customers:
             filtered = [q for q in p.Works if q != self]
-            self._Customers._Works = filtered
+            p._Works = filtered
+        self._Customers = []
         for r in value:
             if self not in r._Works:
                 r._Works.append(self)
-        self._Customers = value
+            if r not in self._Customers:
+                self._Customers.append(r)
 
     Customers = property(getCustomers, setCustomers)
 
diff --git a/CIM15/IEC61970/Core/ConductingEquipment.py b/CIM15/IEC61970/Core/ConductingEquipment.py
index 1256cec..8ce4b16 100644
--- a/CIM15/IEC61970/Core/ConductingEquipment.py
+++ b/CIM15/IEC61970/Core/ConductingEquipment.py
@@ -108,11 +108,13 @@ class ConductingEquipment(Equipment):
     def setProtectionEquipments(self, value):
         for p in self._ProtectionEquipments:
             filtered = [q for q in p.ConductingEquipments if q != self]
-            self._ProtectionEquipments._ConductingEquipments = filtered
+            p._ConductingEquipments = filtered
+        self._ProtectionEquipments = []
         for r in value:
             if self not in r._ConductingEquipments:
                 r._ConductingEquipments.append(self)
-        self._ProtectionEquipments = value
+            if r not in self._ProtectionEquipments:
+                self._ProtectionEquipments.append(r)
 
     ProtectionEquipments = property(getProtectionEquipments, setProtectionEquipments)
 
diff --git a/CIM15/IEC61970/Core/Equipment.py b/CIM15/IEC61970/Core/Equipment.py
index 0f3597f..4a0815b 100644
--- a/CIM15/IEC61970/Core/Equipment.py
+++ b/CIM15/IEC61970/Core/Equipment.py
@@ -91,11 +91,13 @@ class Equipment(PowerSystemResource):
     def setCustomerAgreements(self, value):
         for p in self._CustomerAgreements:
             filtered = [q for q in p.Equipments if q != self]
-            self._CustomerAgreements._Equipments = filtered
+            p._Equipments = filtered
+        self._CustomerAgreements = []
         for r in value:
             if self not in r._Equipments:
                 r._Equipments.append(self)
-        self._CustomerAgreements = value
+            if r not in self._CustomerAgreements:
+                self._CustomerAgreements.append(r)
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
diff --git a/CIM15/IEC61970/Core/PowerSystemResource.py b/CIM15/IEC61970/Core/PowerSystemResource.py
index 3982ad5..a7a25f5 100644
--- a/CIM15/IEC61970/Core/PowerSystemResource.py
+++ b/CIM15/IEC61970/Core/PowerSystemResource.py
@@ -125,11 +125,13 @@ class PowerSystemResource(IdentifiedObject):
     def setScheduleSteps(self, value):
         for p in self._ScheduleSteps:
             filtered = [q for q in p.PowerSystemResources if q != self]
-            self._ScheduleSteps._PowerSystemResources = filtered
+            p._PowerSystemResources = filtered
+        self._ScheduleSteps = []
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
-        self._ScheduleSteps = value
+            if r not in self._ScheduleSteps:
+                self._ScheduleSteps.append(r)
 
     ScheduleSteps = property(getScheduleSteps, setScheduleSteps)
 
@@ -216,11 +218,13 @@ class PowerSystemResource(IdentifiedObject):
     def setPsrLists(self, value):
         for p in self._PsrLists:
             filtered = [q for q in p.PowerSystemResources if q != self]
-            self._PsrLists._PowerSystemResources = filtered
+            p._PowerSystemResources = filtered
+        self._PsrLists = []
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
-        self._PsrLists = value
+            if r not in self._PsrLists:
+                self._PsrLists.append(r)
 
     PsrLists = property(getPsrLists, setPsrLists)
 
@@ -266,11 +270,13 @@ class PowerSystemResource(IdentifiedObject):
     def setReportingGroup(self, value):
         for p in self._ReportingGroup:
             filtered = [q for q in p.PowerSystemResource if q != self]
-            self._ReportingGroup._PowerSystemResource = filtered
+            p._PowerSystemResource = filtered
+        self._ReportingGroup = []
         for r in value:
             if self not in r._PowerSystemResource:
                 r._PowerSystemResource.append(self)
-        self._ReportingGroup = value
+            if r not in self._ReportingGroup:
+                self._ReportingGroup.append(r)
 
     ReportingGroup = property(getReportingGroup, setReportingGroup)
 
@@ -311,11 +317,13 @@ class PowerSystemResource(IdentifiedObject):
     def setAssets(self, value):
         for p in self._Assets:
             filtered = [q for q in p.PowerSystemResources if q != self]
-            self._Assets._PowerSystemResources = filtered
+            p._PowerSystemResources = filtered
+        self._Assets = []
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
-        self._Assets = value
+            if r not in self._Assets:
+                self._Assets.append(r)
 
     Assets = property(getAssets, setAssets)
 
@@ -398,11 +406,13 @@ class PowerSystemResource(IdentifiedObject):
     def setNetworkDataSets(self, value):
         for p in self._NetworkDataSets:
             filtered = [q for q in p.PowerSystemResources if q != self]
-            self._NetworkDataSets._PowerSystemResources = filtered
+            p._PowerSystemResources = filtered
+        self._NetworkDataSets = []
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
-        self._NetworkDataSets = value
+            if r not in self._NetworkDataSets:
+                self._NetworkDataSets.append(r)
 
     NetworkDataSets = property(getNetworkDataSets, setNetworkDataSets)
 
diff --git a/CIM15/IEC61970/Core/PsrList.py b/CIM15/IEC61970/Core/PsrList.py
index 69b1d63..46544f4 100644
--- a/CIM15/IEC61970/Core/PsrList.py
+++ b/CIM15/IEC61970/Core/PsrList.py
@@ -52,11 +52,13 @@ class PsrList(IdentifiedObject):
     def setPowerSystemResources(self, value):
         for p in self._PowerSystemResources:
             filtered = [q for q in p.PsrLists if q != self]
-            self._PowerSystemResources._PsrLists = filtered
+            p._PsrLists = filtered
+        self._PowerSystemResources = []
         for r in value:
             if self not in r._PsrLists:
                 r._PsrLists.append(self)
-        self._PowerSystemResources = value
+            if r not in self._PowerSystemResources:
+                self._PowerSystemResources.append(r)
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM15/IEC61970/Core/ReportingGroup.py b/CIM15/IEC61970/Core/ReportingGroup.py
index 2271061..3e77d7a 100644
--- a/CIM15/IEC61970/Core/ReportingGroup.py
+++ b/CIM15/IEC61970/Core/ReportingGroup.py
@@ -122,11 +122,13 @@ class ReportingGroup(IdentifiedObject):
     def setPowerSystemResource(self, value):
         for p in self._PowerSystemResource:
             filtered = [q for q in p.ReportingGroup if q != self]
-            self._PowerSystemResource._ReportingGroup = filtered
+            p._ReportingGroup = filtered
+        self._PowerSystemResource = []
         for r in value:
             if self not in r._ReportingGroup:
                 r._ReportingGroup.append(self)
-        self._PowerSystemResource = value
+            if r not in self._PowerSystemResource:
+                self._PowerSystemResource.append(r)
 
     PowerSystemResource = property(getPowerSystemResource, setPowerSystemResource)
 
diff --git a/CIM15/IEC61970/Generation/GenerationDynamics/PrimeMover.py b/CIM15/IEC61970/Generation/GenerationDynamics/PrimeMover.py
index 6f2468f..adb378f 100644
--- a/CIM15/IEC61970/Generation/GenerationDynamics/PrimeMover.py
+++ b/CIM15/IEC61970/Generation/GenerationDynamics/PrimeMover.py
@@ -53,11 +53,13 @@ class PrimeMover(PowerSystemResource):
     def setSynchronousMachines(self, value):
         for p in self._SynchronousMachines:
             filtered = [q for q in p.PrimeMovers if q != self]
-            self._SynchronousMachines._PrimeMovers = filtered
+            p._PrimeMovers = filtered
+        self._SynchronousMachines = []
         for r in value:
             if self not in r._PrimeMovers:
                 r._PrimeMovers.append(self)
-        self._SynchronousMachines = value
+            if r not in self._SynchronousMachines:
+                self._SynchronousMachines.append(r)
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
diff --git a/CIM15/IEC61970/Generation/GenerationDynamics/SteamSupply.py b/CIM15/IEC61970/Generation/GenerationDynamics/SteamSupply.py
index 9882b33..74d7339 100644
--- a/CIM15/IEC61970/Generation/GenerationDynamics/SteamSupply.py
+++ b/CIM15/IEC61970/Generation/GenerationDynamics/SteamSupply.py
@@ -53,11 +53,13 @@ class SteamSupply(PowerSystemResource):
     def setSteamTurbines(self, value):
         for p in self._SteamTurbines:
             filtered = [q for q in p.SteamSupplys if q != self]
-            self._SteamTurbines._SteamSupplys = filtered
+            p._SteamSupplys = filtered
+        self._SteamTurbines = []
         for r in value:
             if self not in r._SteamSupplys:
                 r._SteamSupplys.append(self)
-        self._SteamTurbines = value
+            if r not in self._SteamTurbines:
+                self._SteamTurbines.append(r)
 
     SteamTurbines = property(getSteamTurbines, setSteamTurbines)
 
diff --git a/CIM15/IEC61970/Generation/GenerationDynamics/SteamTurbine.py b/CIM15/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
index 4ec5f1c..09ee023 100644
--- a/CIM15/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
+++ b/CIM15/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
@@ -97,11 +97,13 @@ class SteamTurbine(PrimeMover):
     def setSteamSupplys(self, value):
         for p in self._SteamSupplys:
             filtered = [q for q in p.SteamTurbines if q != self]
-            self._SteamSupplys._SteamTurbines = filtered
+            p._SteamTurbines = filtered
+        self._SteamSupplys = []
         for r in value:
             if self not in r._SteamTurbines:
                 r._SteamTurbines.append(self)
-        self._SteamSupplys = value
+            if r not in self._SteamSupplys:
+                self._SteamSupplys.append(r)
 
     SteamSupplys = property(getSteamSupplys, setSteamSupplys)
 
diff --git a/CIM15/IEC61970/Graphics/DiagramObject.py b/CIM15/IEC61970/Graphics/DiagramObject.py
index 4a4580b..dca6849 100644
--- a/CIM15/IEC61970/Graphics/DiagramObject.py
+++ b/CIM15/IEC61970/Graphics/DiagramObject.py
@@ -85,11 +85,13 @@ class DiagramObject(IdentifiedObject):
     def setVisibilityLayers(self, value):
         for p in self._VisibilityLayers:
             filtered = [q for q in p.DiagramObjects if q != self]
-            self._VisibilityLayers._DiagramObjects = filtered
+            p._DiagramObjects = filtered
+        self._VisibilityLayers = []
         for r in value:
             if self not in r._DiagramObjects:
                 r._DiagramObjects.append(self)
-        self._VisibilityLayers = value
+            if r not in self._VisibilityLayers:
+                self._VisibilityLayers.append(r)
 
     VisibilityLayers = property(getVisibilityLayers, setVisibilityLayers)
 
diff --git a/CIM15/IEC61970/Graphics/VisibilityLayer.py b/CIM15/IEC61970/Graphics/VisibilityLayer.py
index 96c51d6..543e605 100644
--- a/CIM15/IEC61970/Graphics/VisibilityLayer.py
+++ b/CIM15/IEC61970/Graphics/VisibilityLayer.py
@@ -53,11 +53,13 @@ class VisibilityLayer(IdentifiedObject):
     def setDiagramObjects(self, value):
         for p in self._DiagramObjects:
             filtered = [q for q in p.VisibilityLayers if q != self]
-            self._DiagramObjects._VisibilityLayers = filtered
+            p._VisibilityLayers = filtered
+        self._DiagramObjects = []
         for r in value:
             if self not in r._VisibilityLayers:
                 r._VisibilityLayers.append(self)
-        self._DiagramObjects = value
+            if r not in self._DiagramObjects:
+                self._DiagramObjects.append(r)
 
     DiagramObjects = property(getDiagramObjects, setDiagramObjects)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/AssetPropertyCurve.py b/CIM15/IEC61970/Informative/InfAssets/AssetPropertyCurve.py
index 02fa63f..13717ce 100644
--- a/CIM15/IEC61970/Informative/InfAssets/AssetPropertyCurve.py
+++ b/CIM15/IEC61970/Informative/InfAssets/AssetPropertyCurve.py
@@ -68,11 +68,13 @@ class AssetPropertyCurve(Curve):
     def setAssets(self, value):
         for p in self._Assets:
             filtered = [q for q in p.AssetPropertyCurves if q != self]
-            self._Assets._AssetPropertyCurves = filtered
+            p._AssetPropertyCurves = filtered
+        self._Assets = []
         for r in value:
             if self not in r._AssetPropertyCurves:
                 r._AssetPropertyCurves.append(self)
-        self._Assets = value
+            if r not in self._Assets:
+                self._Assets.append(r)
 
     Assets = property(getAssets, setAssets)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py b/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py
index ae3e8cb..5e2bdd3 100644
--- a/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py
@@ -118,11 +118,13 @@ class DimensionsInfo(IdentifiedObject):
     def setSpecifications(self, value):
         for p in self._Specifications:
             filtered = [q for q in p.DimensionsInfos if q != self]
-            self._Specifications._DimensionsInfos = filtered
+            p._DimensionsInfos = filtered
+        self._Specifications = []
         for r in value:
             if self not in r._DimensionsInfos:
                 r._DimensionsInfos.append(self)
-        self._Specifications = value
+            if r not in self._Specifications:
+                self._Specifications.append(r)
 
     Specifications = property(getSpecifications, setSpecifications)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/Medium.py b/CIM15/IEC61970/Informative/InfAssets/Medium.py
index 276a5c6..e0ac517 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Medium.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Medium.py
@@ -76,11 +76,13 @@ class Medium(IdentifiedObject):
     def setAssets(self, value):
         for p in self._Assets:
             filtered = [q for q in p.Mediums if q != self]
-            self._Assets._Mediums = filtered
+            p._Mediums = filtered
+        self._Assets = []
         for r in value:
             if self not in r._Mediums:
                 r._Mediums.append(self)
-        self._Assets = value
+            if r not in self._Assets:
+                self._Assets.append(r)
 
     Assets = property(getAssets, setAssets)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/MountingConnection.py b/CIM15/IEC61970/Informative/InfAssets/MountingConnection.py
index 1f7d2c8..cc52628 100644
--- a/CIM15/IEC61970/Informative/InfAssets/MountingConnection.py
+++ b/CIM15/IEC61970/Informative/InfAssets/MountingConnection.py
@@ -52,11 +52,13 @@ class MountingConnection(IdentifiedObject):
     def setStructureInfos(self, value):
         for p in self._StructureInfos:
             filtered = [q for q in p.MountingConnections if q != self]
-            self._StructureInfos._MountingConnections = filtered
+            p._MountingConnections = filtered
+        self._StructureInfos = []
         for r in value:
             if self not in r._MountingConnections:
                 r._MountingConnections.append(self)
-        self._StructureInfos = value
+            if r not in self._StructureInfos:
+                self._StructureInfos.append(r)
 
     StructureInfos = property(getStructureInfos, setStructureInfos)
 
@@ -79,11 +81,13 @@ class MountingConnection(IdentifiedObject):
     def setMountingPoints(self, value):
         for p in self._MountingPoints:
             filtered = [q for q in p.Connections if q != self]
-            self._MountingPoints._Connections = filtered
+            p._Connections = filtered
+        self._MountingPoints = []
         for r in value:
             if self not in r._Connections:
                 r._Connections.append(self)
-        self._MountingPoints = value
+            if r not in self._MountingPoints:
+                self._MountingPoints.append(r)
 
     MountingPoints = property(getMountingPoints, setMountingPoints)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py b/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py
index 0d62f01..70650cb 100644
--- a/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py
+++ b/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py
@@ -64,11 +64,13 @@ class MountingPoint(IdentifiedObject):
     def setConnections(self, value):
         for p in self._Connections:
             filtered = [q for q in p.MountingPoints if q != self]
-            self._Connections._MountingPoints = filtered
+            p._MountingPoints = filtered
+        self._Connections = []
         for r in value:
             if self not in r._MountingPoints:
                 r._MountingPoints.append(self)
-        self._Connections = value
+            if r not in self._Connections:
+                self._Connections.append(r)
 
     Connections = property(getConnections, setConnections)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/PowerRating.py b/CIM15/IEC61970/Informative/InfAssets/PowerRating.py
index 8dcec90..90189d6 100644
--- a/CIM15/IEC61970/Informative/InfAssets/PowerRating.py
+++ b/CIM15/IEC61970/Informative/InfAssets/PowerRating.py
@@ -60,11 +60,13 @@ class PowerRating(IdentifiedObject):
     def setTransformerAssets(self, value):
         for p in self._TransformerAssets:
             filtered = [q for q in p.PowerRatings if q != self]
-            self._TransformerAssets._PowerRatings = filtered
+            p._PowerRatings = filtered
+        self._TransformerAssets = []
         for r in value:
             if self not in r._PowerRatings:
                 r._PowerRatings.append(self)
-        self._TransformerAssets = value
+            if r not in self._TransformerAssets:
+                self._TransformerAssets.append(r)
 
     TransformerAssets = property(getTransformerAssets, setTransformerAssets)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/Procedure.py b/CIM15/IEC61970/Informative/InfAssets/Procedure.py
index 0144a22..14992dd 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Procedure.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Procedure.py
@@ -119,11 +119,13 @@ class Procedure(Document):
     def setCompatibleUnits(self, value):
         for p in self._CompatibleUnits:
             filtered = [q for q in p.Procedures if q != self]
-            self._CompatibleUnits._Procedures = filtered
+            p._Procedures = filtered
+        self._CompatibleUnits = []
         for r in value:
             if self not in r._Procedures:
                 r._Procedures.append(self)
-        self._CompatibleUnits = value
+            if r not in self._CompatibleUnits:
+                self._CompatibleUnits.append(r)
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
@@ -146,11 +148,13 @@ class Procedure(Document):
     def setLimits(self, value):
         for p in self._Limits:
             filtered = [q for q in p.Procedures if q != self]
-            self._Limits._Procedures = filtered
+            p._Procedures = filtered
+        self._Limits = []
         for r in value:
             if self not in r._Procedures:
                 r._Procedures.append(self)
-        self._Limits = value
+            if r not in self._Limits:
+                self._Limits.append(r)
 
     Limits = property(getLimits, setLimits)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/ProcedureDataSet.py b/CIM15/IEC61970/Informative/InfAssets/ProcedureDataSet.py
index b63440c..2aae8d6 100644
--- a/CIM15/IEC61970/Informative/InfAssets/ProcedureDataSet.py
+++ b/CIM15/IEC61970/Informative/InfAssets/ProcedureDataSet.py
@@ -65,11 +65,13 @@ class ProcedureDataSet(Document):
     def setProperties(self, value):
         for p in self._Properties:
             filtered = [q for q in p.ProcedureDataSets if q != self]
-            self._Properties._ProcedureDataSets = filtered
+            p._ProcedureDataSets = filtered
+        self._Properties = []
         for r in value:
             if self not in r._ProcedureDataSets:
                 r._ProcedureDataSets.append(self)
-        self._Properties = value
+            if r not in self._Properties:
+                self._Properties.append(r)
 
     Properties = property(getProperties, setProperties)
 
@@ -92,11 +94,13 @@ class ProcedureDataSet(Document):
     def setTransformerObservations(self, value):
         for p in self._TransformerObservations:
             filtered = [q for q in p.ProcedureDataSets if q != self]
-            self._TransformerObservations._ProcedureDataSets = filtered
+            p._ProcedureDataSets = filtered
+        self._TransformerObservations = []
         for r in value:
             if self not in r._ProcedureDataSets:
                 r._ProcedureDataSets.append(self)
-        self._TransformerObservations = value
+            if r not in self._TransformerObservations:
+                self._TransformerObservations.append(r)
 
     TransformerObservations = property(getTransformerObservations, setTransformerObservations)
 
@@ -135,11 +139,13 @@ class ProcedureDataSet(Document):
     def setMeasurementValues(self, value):
         for p in self._MeasurementValues:
             filtered = [q for q in p.ProcedureDataSets if q != self]
-            self._MeasurementValues._ProcedureDataSets = filtered
+            p._ProcedureDataSets = filtered
+        self._MeasurementValues = []
         for r in value:
             if self not in r._ProcedureDataSets:
                 r._ProcedureDataSets.append(self)
-        self._MeasurementValues = value
+            if r not in self._MeasurementValues:
+                self._MeasurementValues.append(r)
 
     MeasurementValues = property(getMeasurementValues, setMeasurementValues)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/ReliabilityInfo.py b/CIM15/IEC61970/Informative/InfAssets/ReliabilityInfo.py
index 8a692c1..3da9e22 100644
--- a/CIM15/IEC61970/Informative/InfAssets/ReliabilityInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/ReliabilityInfo.py
@@ -76,11 +76,13 @@ class ReliabilityInfo(IdentifiedObject):
     def setAssets(self, value):
         for p in self._Assets:
             filtered = [q for q in p.ReliabilityInfos if q != self]
-            self._Assets._ReliabilityInfos = filtered
+            p._ReliabilityInfos = filtered
+        self._Assets = []
         for r in value:
             if self not in r._ReliabilityInfos:
                 r._ReliabilityInfos.append(self)
-        self._Assets = value
+            if r not in self._Assets:
+                self._Assets.append(r)
 
     Assets = property(getAssets, setAssets)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/Specification.py b/CIM15/IEC61970/Informative/InfAssets/Specification.py
index ca390ce..db7df5e 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Specification.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Specification.py
@@ -157,11 +157,13 @@ class Specification(Document):
     def setDimensionsInfos(self, value):
         for p in self._DimensionsInfos:
             filtered = [q for q in p.Specifications if q != self]
-            self._DimensionsInfos._Specifications = filtered
+            p._Specifications = filtered
+        self._DimensionsInfos = []
         for r in value:
             if self not in r._Specifications:
                 r._Specifications.append(self)
-        self._DimensionsInfos = value
+            if r not in self._DimensionsInfos:
+                self._DimensionsInfos.append(r)
 
     DimensionsInfos = property(getDimensionsInfos, setDimensionsInfos)
 
@@ -206,11 +208,13 @@ class Specification(Document):
     def setQualificationRequirements(self, value):
         for p in self._QualificationRequirements:
             filtered = [q for q in p.Specifications if q != self]
-            self._QualificationRequirements._Specifications = filtered
+            p._Specifications = filtered
+        self._QualificationRequirements = []
         for r in value:
             if self not in r._Specifications:
                 r._Specifications.append(self)
-        self._QualificationRequirements = value
+            if r not in self._QualificationRequirements:
+                self._QualificationRequirements.append(r)
 
     QualificationRequirements = property(getQualificationRequirements, setQualificationRequirements)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/Structure.py b/CIM15/IEC61970/Informative/InfAssets/Structure.py
index 47e8b48..0cc488c 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Structure.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Structure.py
@@ -101,11 +101,13 @@ class Structure(AssetContainer):
     def setMountingConnections(self, value):
         for p in self._MountingConnections:
             filtered = [q for q in p.StructureInfos if q != self]
-            self._MountingConnections._StructureInfos = filtered
+            p._StructureInfos = filtered
+        self._MountingConnections = []
         for r in value:
             if self not in r._StructureInfos:
                 r._StructureInfos.append(self)
-        self._MountingConnections = value
+            if r not in self._MountingConnections:
+                self._MountingConnections.append(r)
 
     MountingConnections = property(getMountingConnections, setMountingConnections)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py b/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py
index 5690383..1fc9908 100644
--- a/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py
+++ b/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py
@@ -64,11 +64,13 @@ class TransformerAsset(Asset):
     def setPowerRatings(self, value):
         for p in self._PowerRatings:
             filtered = [q for q in p.TransformerAssets if q != self]
-            self._PowerRatings._TransformerAssets = filtered
+            p._TransformerAssets = filtered
+        self._PowerRatings = []
         for r in value:
             if self not in r._TransformerAssets:
                 r._TransformerAssets.append(self)
-        self._PowerRatings = value
+            if r not in self._PowerRatings:
+                self._PowerRatings.append(r)
 
     PowerRatings = property(getPowerRatings, setPowerRatings)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py b/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py
index 0a322ff..2863a79 100644
--- a/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py
+++ b/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py
@@ -140,11 +140,13 @@ class TransformerObservation(IdentifiedObject):
     def setProcedureDataSets(self, value):
         for p in self._ProcedureDataSets:
             filtered = [q for q in p.TransformerObservations if q != self]
-            self._ProcedureDataSets._TransformerObservations = filtered
+            p._TransformerObservations = filtered
+        self._ProcedureDataSets = []
         for r in value:
             if self not in r._TransformerObservations:
                 r._TransformerObservations.append(self)
-        self._ProcedureDataSets = value
+            if r not in self._ProcedureDataSets:
+                self._ProcedureDataSets.append(r)
 
     ProcedureDataSets = property(getProcedureDataSets, setProcedureDataSets)
 
diff --git a/CIM15/IEC61970/Informative/InfCommon/BusinessRole.py b/CIM15/IEC61970/Informative/InfCommon/BusinessRole.py
index 810ea4d..8252d31 100644
--- a/CIM15/IEC61970/Informative/InfCommon/BusinessRole.py
+++ b/CIM15/IEC61970/Informative/InfCommon/BusinessRole.py
@@ -55,11 +55,13 @@ class BusinessRole(IdentifiedObject):
     def setOrganisations(self, value):
         for p in self._Organisations:
             filtered = [q for q in p.BusinessRoles if q != self]
-            self._Organisations._BusinessRoles = filtered
+            p._BusinessRoles = filtered
+        self._Organisations = []
         for r in value:
             if self not in r._BusinessRoles:
                 r._BusinessRoles.append(self)
-        self._Organisations = value
+            if r not in self._Organisations:
+                self._Organisations.append(r)
 
     Organisations = property(getOrganisations, setOrganisations)
 
diff --git a/CIM15/IEC61970/Informative/InfCommon/Craft.py b/CIM15/IEC61970/Informative/InfCommon/Craft.py
index e10b277..6aff72d 100644
--- a/CIM15/IEC61970/Informative/InfCommon/Craft.py
+++ b/CIM15/IEC61970/Informative/InfCommon/Craft.py
@@ -63,11 +63,13 @@ class Craft(IdentifiedObject):
     def setSkills(self, value):
         for p in self._Skills:
             filtered = [q for q in p.Crafts if q != self]
-            self._Skills._Crafts = filtered
+            p._Crafts = filtered
+        self._Skills = []
         for r in value:
             if self not in r._Crafts:
                 r._Crafts.append(self)
-        self._Skills = value
+            if r not in self._Skills:
+                self._Skills.append(r)
 
     Skills = property(getSkills, setSkills)
 
@@ -90,11 +92,13 @@ class Craft(IdentifiedObject):
     def setErpPersons(self, value):
         for p in self._ErpPersons:
             filtered = [q for q in p.Crafts if q != self]
-            self._ErpPersons._Crafts = filtered
+            p._Crafts = filtered
+        self._ErpPersons = []
         for r in value:
             if self not in r._Crafts:
                 r._Crafts.append(self)
-        self._ErpPersons = value
+            if r not in self._ErpPersons:
+                self._ErpPersons.append(r)
 
     ErpPersons = property(getErpPersons, setErpPersons)
 
@@ -119,11 +123,13 @@ class Craft(IdentifiedObject):
     def setCapabilities(self, value):
         for p in self._Capabilities:
             filtered = [q for q in p.Crafts if q != self]
-            self._Capabilities._Crafts = filtered
+            p._Crafts = filtered
+        self._Capabilities = []
         for r in value:
             if self not in r._Crafts:
                 r._Crafts.append(self)
-        self._Capabilities = value
+            if r not in self._Capabilities:
+                self._Capabilities.append(r)
 
     Capabilities = property(getCapabilities, setCapabilities)
 
diff --git a/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py b/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py
index 8310d9e..35cceb3 100644
--- a/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py
+++ b/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py
@@ -84,11 +84,13 @@ class ScheduleParameterInfo(IdentifiedObject):
     def setDocuments(self, value):
         for p in self._Documents:
             filtered = [q for q in p.ScheduleParameterInfos if q != self]
-            self._Documents._ScheduleParameterInfos = filtered
+            p._ScheduleParameterInfos = filtered
+        self._Documents = []
         for r in value:
             if self not in r._ScheduleParameterInfos:
                 r._ScheduleParameterInfos.append(self)
-        self._Documents = value
+            if r not in self._Documents:
+                self._Documents.append(r)
 
     Documents = property(getDocuments, setDocuments)
 
diff --git a/CIM15/IEC61970/Informative/InfCommon/ScheduledEvent.py b/CIM15/IEC61970/Informative/InfCommon/ScheduledEvent.py
index 0d6d02a..90ef47a 100644
--- a/CIM15/IEC61970/Informative/InfCommon/ScheduledEvent.py
+++ b/CIM15/IEC61970/Informative/InfCommon/ScheduledEvent.py
@@ -140,11 +140,13 @@ class ScheduledEvent(IdentifiedObject):
     def setAssets(self, value):
         for p in self._Assets:
             filtered = [q for q in p.ScheduledEvents if q != self]
-            self._Assets._ScheduledEvents = filtered
+            p._ScheduledEvents = filtered
+        self._Assets = []
         for r in value:
             if self not in r._ScheduledEvents:
                 r._ScheduledEvents.append(self)
-        self._Assets = value
+            if r not in self._Assets:
+                self._Assets.append(r)
 
     Assets = property(getAssets, setAssets)
 
diff --git a/CIM15/IEC61970/Informative/InfCommon/Skill.py b/CIM15/IEC61970/Informative/InfCommon/Skill.py
index 14b5f6e..bb62a8d 100644
--- a/CIM15/IEC61970/Informative/InfCommon/Skill.py
+++ b/CIM15/IEC61970/Informative/InfCommon/Skill.py
@@ -67,11 +67,13 @@ class Skill(Document):
     def setCrafts(self, value):
         for p in self._Crafts:
             filtered = [q for q in p.Skills if q != self]
-            self._Crafts._Skills = filtered
+            p._Skills = filtered
+        self._Crafts = []
         for r in value:
             if self not in r._Skills:
                 r._Skills.append(self)
-        self._Crafts = value
+            if r not in self._Crafts:
+                self._Crafts.append(r)
 
     Crafts = property(getCrafts, setCrafts)
 
@@ -110,11 +112,13 @@ class Skill(Document):
     def setQualificationRequirements(self, value):
         for p in self._QualificationRequirements:
             filtered = [q for q in p.Skills if q != self]
-            self._QualificationRequirements._Skills = filtered
+            p._Skills = filtered
+        self._QualificationRequirements = []
         for r in value:
             if self not in r._Skills:
                 r._Skills.append(self)
-        self._QualificationRequirements = value
+            if r not in self._QualificationRequirements:
+                self._QualificationRequirements.append(r)
 
     QualificationRequirements = property(getQualificationRequirements, setQualificationRequirements)
 
diff --git a/CIM15/IEC61970/Informative/InfCustomers/CustomerBillingInfo.py b/CIM15/IEC61970/Informative/InfCustomers/CustomerBillingInfo.py
index 6468472..096555e 100644
--- a/CIM15/IEC61970/Informative/InfCustomers/CustomerBillingInfo.py
+++ b/CIM15/IEC61970/Informative/InfCustomers/CustomerBillingInfo.py
@@ -84,11 +84,13 @@ class CustomerBillingInfo(Document):
     def setErpInvoiceLineItems(self, value):
         for p in self._ErpInvoiceLineItems:
             filtered = [q for q in p.CustomerBillingInfos if q != self]
-            self._ErpInvoiceLineItems._CustomerBillingInfos = filtered
+            p._CustomerBillingInfos = filtered
+        self._ErpInvoiceLineItems = []
         for r in value:
             if self not in r._CustomerBillingInfos:
                 r._CustomerBillingInfos.append(self)
-        self._ErpInvoiceLineItems = value
+            if r not in self._ErpInvoiceLineItems:
+                self._ErpInvoiceLineItems.append(r)
 
     ErpInvoiceLineItems = property(getErpInvoiceLineItems, setErpInvoiceLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py b/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py
index 397c5ab..c1c9c17 100644
--- a/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py
+++ b/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py
@@ -121,11 +121,13 @@ class WorkBillingInfo(Document):
     def setErpLineItems(self, value):
         for p in self._ErpLineItems:
             filtered = [q for q in p.WorkBillingInfos if q != self]
-            self._ErpLineItems._WorkBillingInfos = filtered
+            p._WorkBillingInfos = filtered
+        self._ErpLineItems = []
         for r in value:
             if self not in r._WorkBillingInfos:
                 r._WorkBillingInfos.append(self)
-        self._ErpLineItems = value
+            if r not in self._ErpLineItems:
+                self._ErpLineItems.append(r)
 
     ErpLineItems = property(getErpLineItems, setErpLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py
index b1e5c6c..24617c0 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py
@@ -127,11 +127,13 @@ class ErpInvoiceLineItem(Document):
     def setErpPayments(self, value):
         for p in self._ErpPayments:
             filtered = [q for q in p.ErpInvoiceLineItems if q != self]
-            self._ErpPayments._ErpInvoiceLineItems = filtered
+            p._ErpInvoiceLineItems = filtered
+        self._ErpPayments = []
         for r in value:
             if self not in r._ErpInvoiceLineItems:
                 r._ErpInvoiceLineItems.append(self)
-        self._ErpPayments = value
+            if r not in self._ErpPayments:
+                self._ErpPayments.append(r)
 
     ErpPayments = property(getErpPayments, setErpPayments)
 
@@ -170,11 +172,13 @@ class ErpInvoiceLineItem(Document):
     def setWorkBillingInfos(self, value):
         for p in self._WorkBillingInfos:
             filtered = [q for q in p.ErpLineItems if q != self]
-            self._WorkBillingInfos._ErpLineItems = filtered
+            p._ErpLineItems = filtered
+        self._WorkBillingInfos = []
         for r in value:
             if self not in r._ErpLineItems:
                 r._ErpLineItems.append(self)
-        self._WorkBillingInfos = value
+            if r not in self._WorkBillingInfos:
+                self._WorkBillingInfos.append(r)
 
     WorkBillingInfos = property(getWorkBillingInfos, setWorkBillingInfos)
 
@@ -212,11 +216,13 @@ class ErpInvoiceLineItem(Document):
     def setUserAttributes(self, value):
         for p in self._UserAttributes:
             filtered = [q for q in p.ErpInvoiceLineItems if q != self]
-            self._UserAttributes._ErpInvoiceLineItems = filtered
+            p._ErpInvoiceLineItems = filtered
+        self._UserAttributes = []
         for r in value:
             if self not in r._ErpInvoiceLineItems:
                 r._ErpInvoiceLineItems.append(self)
-        self._UserAttributes = value
+            if r not in self._UserAttributes:
+                self._UserAttributes.append(r)
 
     UserAttributes = property(getUserAttributes, setUserAttributes)
 
@@ -310,11 +316,13 @@ class ErpInvoiceLineItem(Document):
     def setCustomerBillingInfos(self, value):
         for p in self._CustomerBillingInfos:
             filtered = [q for q in p.ErpInvoiceLineItems if q != self]
-            self._CustomerBillingInfos._ErpInvoiceLineItems = filtered
+            p._ErpInvoiceLineItems = filtered
+        self._CustomerBillingInfos = []
         for r in value:
             if self not in r._ErpInvoiceLineItems:
                 r._ErpInvoiceLineItems.append(self)
-        self._CustomerBillingInfos = value
+            if r not in self._CustomerBillingInfos:
+                self._CustomerBillingInfos.append(r)
 
     CustomerBillingInfos = property(getCustomerBillingInfos, setCustomerBillingInfos)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpJournalEntry.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpJournalEntry.py
index 27632b9..dc1690f 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpJournalEntry.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpJournalEntry.py
@@ -93,11 +93,13 @@ class ErpJournalEntry(IdentifiedObject):
     def setErpPayableLineItems(self, value):
         for p in self._ErpPayableLineItems:
             filtered = [q for q in p.ErpJournalEntries if q != self]
-            self._ErpPayableLineItems._ErpJournalEntries = filtered
+            p._ErpJournalEntries = filtered
+        self._ErpPayableLineItems = []
         for r in value:
             if self not in r._ErpJournalEntries:
                 r._ErpJournalEntries.append(self)
-        self._ErpPayableLineItems = value
+            if r not in self._ErpPayableLineItems:
+                self._ErpPayableLineItems.append(r)
 
     ErpPayableLineItems = property(getErpPayableLineItems, setErpPayableLineItems)
 
@@ -136,11 +138,13 @@ class ErpJournalEntry(IdentifiedObject):
     def setErpRecLineItems(self, value):
         for p in self._ErpRecLineItems:
             filtered = [q for q in p.ErpJournalEntries if q != self]
-            self._ErpRecLineItems._ErpJournalEntries = filtered
+            p._ErpJournalEntries = filtered
+        self._ErpRecLineItems = []
         for r in value:
             if self not in r._ErpJournalEntries:
                 r._ErpJournalEntries.append(self)
-        self._ErpRecLineItems = value
+            if r not in self._ErpRecLineItems:
+                self._ErpRecLineItems.append(r)
 
     ErpRecLineItems = property(getErpRecLineItems, setErpRecLineItems)
 
@@ -178,11 +182,13 @@ class ErpJournalEntry(IdentifiedObject):
     def setCostTypes(self, value):
         for p in self._CostTypes:
             filtered = [q for q in p.ErpJournalEntries if q != self]
-            self._CostTypes._ErpJournalEntries = filtered
+            p._ErpJournalEntries = filtered
+        self._CostTypes = []
         for r in value:
             if self not in r._ErpJournalEntries:
                 r._ErpJournalEntries.append(self)
-        self._CostTypes = value
+            if r not in self._CostTypes:
+                self._CostTypes.append(r)
 
     CostTypes = property(getCostTypes, setCostTypes)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py
index d463c50..e2956e3 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py
@@ -116,11 +116,13 @@ class ErpLedgerEntry(IdentifiedObject):
     def setUserAttributes(self, value):
         for p in self._UserAttributes:
             filtered = [q for q in p.ErpLedgerEntries if q != self]
-            self._UserAttributes._ErpLedgerEntries = filtered
+            p._ErpLedgerEntries = filtered
+        self._UserAttributes = []
         for r in value:
             if self not in r._ErpLedgerEntries:
                 r._ErpLedgerEntries.append(self)
-        self._UserAttributes = value
+            if r not in self._UserAttributes:
+                self._UserAttributes.append(r)
 
     UserAttributes = property(getUserAttributes, setUserAttributes)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py
index 60f0aca..9b83ed3 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py
@@ -166,11 +166,13 @@ class ErpOrganisation(Organisation):
     def setCrews(self, value):
         for p in self._Crews:
             filtered = [q for q in p.Organisations if q != self]
-            self._Crews._Organisations = filtered
+            p._Organisations = filtered
+        self._Crews = []
         for r in value:
             if self not in r._Organisations:
                 r._Organisations.append(self)
-        self._Crews = value
+            if r not in self._Crews:
+                self._Crews.append(r)
 
     Crews = property(getCrews, setCrews)
 
@@ -235,11 +237,13 @@ class ErpOrganisation(Organisation):
     def setActivityRecords(self, value):
         for p in self._ActivityRecords:
             filtered = [q for q in p.Organisations if q != self]
-            self._ActivityRecords._Organisations = filtered
+            p._Organisations = filtered
+        self._ActivityRecords = []
         for r in value:
             if self not in r._Organisations:
                 r._Organisations.append(self)
-        self._ActivityRecords = value
+            if r not in self._ActivityRecords:
+                self._ActivityRecords.append(r)
 
     ActivityRecords = property(getActivityRecords, setActivityRecords)
 
@@ -283,11 +287,13 @@ class ErpOrganisation(Organisation):
     def setLocations(self, value):
         for p in self._Locations:
             filtered = [q for q in p.ErpOrganisations if q != self]
-            self._Locations._ErpOrganisations = filtered
+            p._ErpOrganisations = filtered
+        self._Locations = []
         for r in value:
             if self not in r._ErpOrganisations:
                 r._ErpOrganisations.append(self)
-        self._Locations = value
+            if r not in self._Locations:
+                self._Locations.append(r)
 
     Locations = property(getLocations, setLocations)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py
index 6c41fb6..7cab44b 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py
@@ -52,11 +52,13 @@ class ErpPayable(Document):
     def setContractorItems(self, value):
         for p in self._ContractorItems:
             filtered = [q for q in p.ErpPayables if q != self]
-            self._ContractorItems._ErpPayables = filtered
+            p._ErpPayables = filtered
+        self._ContractorItems = []
         for r in value:
             if self not in r._ErpPayables:
                 r._ErpPayables.append(self)
-        self._ContractorItems = value
+            if r not in self._ContractorItems:
+                self._ContractorItems.append(r)
 
     ContractorItems = property(getContractorItems, setContractorItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayableLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayableLineItem.py
index 2d04c0e..1410dc5 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayableLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayableLineItem.py
@@ -63,11 +63,13 @@ class ErpPayableLineItem(IdentifiedObject):
     def setErpPayments(self, value):
         for p in self._ErpPayments:
             filtered = [q for q in p.ErpPayableLineItems if q != self]
-            self._ErpPayments._ErpPayableLineItems = filtered
+            p._ErpPayableLineItems = filtered
+        self._ErpPayments = []
         for r in value:
             if self not in r._ErpPayableLineItems:
                 r._ErpPayableLineItems.append(self)
-        self._ErpPayments = value
+            if r not in self._ErpPayments:
+                self._ErpPayments.append(r)
 
     ErpPayments = property(getErpPayments, setErpPayments)
 
@@ -90,11 +92,13 @@ class ErpPayableLineItem(IdentifiedObject):
     def setErpJournalEntries(self, value):
         for p in self._ErpJournalEntries:
             filtered = [q for q in p.ErpPayableLineItems if q != self]
-            self._ErpJournalEntries._ErpPayableLineItems = filtered
+            p._ErpPayableLineItems = filtered
+        self._ErpJournalEntries = []
         for r in value:
             if self not in r._ErpPayableLineItems:
                 r._ErpPayableLineItems.append(self)
-        self._ErpJournalEntries = value
+            if r not in self._ErpJournalEntries:
+                self._ErpJournalEntries.append(r)
 
     ErpJournalEntries = property(getErpJournalEntries, setErpJournalEntries)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayment.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayment.py
index 2d2aae8..588cc52 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayment.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayment.py
@@ -60,11 +60,13 @@ class ErpPayment(Document):
     def setErpRecLineItems(self, value):
         for p in self._ErpRecLineItems:
             filtered = [q for q in p.ErpPayments if q != self]
-            self._ErpRecLineItems._ErpPayments = filtered
+            p._ErpPayments = filtered
+        self._ErpRecLineItems = []
         for r in value:
             if self not in r._ErpPayments:
                 r._ErpPayments.append(self)
-        self._ErpRecLineItems = value
+            if r not in self._ErpRecLineItems:
+                self._ErpRecLineItems.append(r)
 
     ErpRecLineItems = property(getErpRecLineItems, setErpRecLineItems)
 
@@ -87,11 +89,13 @@ class ErpPayment(Document):
     def setErpPayableLineItems(self, value):
         for p in self._ErpPayableLineItems:
             filtered = [q for q in p.ErpPayments if q != self]
-            self._ErpPayableLineItems._ErpPayments = filtered
+            p._ErpPayments = filtered
+        self._ErpPayableLineItems = []
         for r in value:
             if self not in r._ErpPayments:
                 r._ErpPayments.append(self)
-        self._ErpPayableLineItems = value
+            if r not in self._ErpPayableLineItems:
+                self._ErpPayableLineItems.append(r)
 
     ErpPayableLineItems = property(getErpPayableLineItems, setErpPayableLineItems)
 
@@ -114,11 +118,13 @@ class ErpPayment(Document):
     def setErpInvoiceLineItems(self, value):
         for p in self._ErpInvoiceLineItems:
             filtered = [q for q in p.ErpPayments if q != self]
-            self._ErpInvoiceLineItems._ErpPayments = filtered
+            p._ErpPayments = filtered
+        self._ErpInvoiceLineItems = []
         for r in value:
             if self not in r._ErpPayments:
                 r._ErpPayments.append(self)
-        self._ErpInvoiceLineItems = value
+            if r not in self._ErpInvoiceLineItems:
+                self._ErpInvoiceLineItems.append(r)
 
     ErpInvoiceLineItems = property(getErpInvoiceLineItems, setErpInvoiceLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py
index d153c89..7b77170 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py
@@ -193,11 +193,13 @@ class ErpPerson(IdentifiedObject):
     def setAppointments(self, value):
         for p in self._Appointments:
             filtered = [q for q in p.ErpPersons if q != self]
-            self._Appointments._ErpPersons = filtered
+            p._ErpPersons = filtered
+        self._Appointments = []
         for r in value:
             if self not in r._ErpPersons:
                 r._ErpPersons.append(self)
-        self._Appointments = value
+            if r not in self._Appointments:
+                self._Appointments.append(r)
 
     Appointments = property(getAppointments, setAppointments)
 
@@ -221,11 +223,13 @@ class ErpPerson(IdentifiedObject):
     def setCrews(self, value):
         for p in self._Crews:
             filtered = [q for q in p.CrewMembers if q != self]
-            self._Crews._CrewMembers = filtered
+            p._CrewMembers = filtered
+        self._Crews = []
         for r in value:
             if self not in r._CrewMembers:
                 r._CrewMembers.append(self)
-        self._Crews = value
+            if r not in self._Crews:
+                self._Crews.append(r)
 
     Crews = property(getCrews, setCrews)
 
@@ -248,11 +252,13 @@ class ErpPerson(IdentifiedObject):
     def setLaborItems(self, value):
         for p in self._LaborItems:
             filtered = [q for q in p.ErpPersons if q != self]
-            self._LaborItems._ErpPersons = filtered
+            p._ErpPersons = filtered
+        self._LaborItems = []
         for r in value:
             if self not in r._ErpPersons:
                 r._ErpPersons.append(self)
-        self._LaborItems = value
+            if r not in self._LaborItems:
+                self._LaborItems.append(r)
 
     LaborItems = property(getLaborItems, setLaborItems)
 
@@ -296,11 +302,13 @@ class ErpPerson(IdentifiedObject):
     def setActivityRecords(self, value):
         for p in self._ActivityRecords:
             filtered = [q for q in p.ErpPersons if q != self]
-            self._ActivityRecords._ErpPersons = filtered
+            p._ErpPersons = filtered
+        self._ActivityRecords = []
         for r in value:
             if self not in r._ErpPersons:
                 r._ErpPersons.append(self)
-        self._ActivityRecords = value
+            if r not in self._ActivityRecords:
+                self._ActivityRecords.append(r)
 
     ActivityRecords = property(getActivityRecords, setActivityRecords)
 
@@ -431,11 +439,13 @@ class ErpPerson(IdentifiedObject):
     def setCrafts(self, value):
         for p in self._Crafts:
             filtered = [q for q in p.ErpPersons if q != self]
-            self._Crafts._ErpPersons = filtered
+            p._ErpPersons = filtered
+        self._Crafts = []
         for r in value:
             if self not in r._ErpPersons:
                 r._ErpPersons.append(self)
-        self._Crafts = value
+            if r not in self._Crafts:
+                self._Crafts.append(r)
 
     Crafts = property(getCrafts, setCrafts)
 
@@ -474,11 +484,13 @@ class ErpPerson(IdentifiedObject):
     def setCallBacks(self, value):
         for p in self._CallBacks:
             filtered = [q for q in p.ErpPersons if q != self]
-            self._CallBacks._ErpPersons = filtered
+            p._ErpPersons = filtered
+        self._CallBacks = []
         for r in value:
             if self not in r._ErpPersons:
                 r._ErpPersons.append(self)
-        self._CallBacks = value
+            if r not in self._CallBacks:
+                self._CallBacks.append(r)
 
     CallBacks = property(getCallBacks, setCallBacks)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpRecDelvLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpRecDelvLineItem.py
index cc02755..24304dd 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpRecDelvLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpRecDelvLineItem.py
@@ -67,11 +67,13 @@ class ErpRecDelvLineItem(IdentifiedObject):
     def setAssets(self, value):
         for p in self._Assets:
             filtered = [q for q in p.ErpRecDeliveryItems if q != self]
-            self._Assets._ErpRecDeliveryItems = filtered
+            p._ErpRecDeliveryItems = filtered
+        self._Assets = []
         for r in value:
             if self not in r._ErpRecDeliveryItems:
                 r._ErpRecDeliveryItems.append(self)
-        self._Assets = value
+            if r not in self._Assets:
+                self._Assets.append(r)
 
     Assets = property(getAssets, setAssets)
 
@@ -127,11 +129,13 @@ class ErpRecDelvLineItem(IdentifiedObject):
     def setMaterialItems(self, value):
         for p in self._MaterialItems:
             filtered = [q for q in p.ErpRecDelvLineItems if q != self]
-            self._MaterialItems._ErpRecDelvLineItems = filtered
+            p._ErpRecDelvLineItems = filtered
+        self._MaterialItems = []
         for r in value:
             if self not in r._ErpRecDelvLineItems:
                 r._ErpRecDelvLineItems.append(self)
-        self._MaterialItems = value
+            if r not in self._MaterialItems:
+                self._MaterialItems.append(r)
 
     MaterialItems = property(getMaterialItems, setMaterialItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpRecLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpRecLineItem.py
index 0460f28..1839df2 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpRecLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpRecLineItem.py
@@ -96,11 +96,13 @@ class ErpRecLineItem(IdentifiedObject):
     def setErpPayments(self, value):
         for p in self._ErpPayments:
             filtered = [q for q in p.ErpRecLineItems if q != self]
-            self._ErpPayments._ErpRecLineItems = filtered
+            p._ErpRecLineItems = filtered
+        self._ErpPayments = []
         for r in value:
             if self not in r._ErpRecLineItems:
                 r._ErpRecLineItems.append(self)
-        self._ErpPayments = value
+            if r not in self._ErpPayments:
+                self._ErpPayments.append(r)
 
     ErpPayments = property(getErpPayments, setErpPayments)
 
@@ -123,11 +125,13 @@ class ErpRecLineItem(IdentifiedObject):
     def setErpJournalEntries(self, value):
         for p in self._ErpJournalEntries:
             filtered = [q for q in p.ErpRecLineItems if q != self]
-            self._ErpJournalEntries._ErpRecLineItems = filtered
+            p._ErpRecLineItems = filtered
+        self._ErpJournalEntries = []
         for r in value:
             if self not in r._ErpRecLineItems:
                 r._ErpRecLineItems.append(self)
-        self._ErpJournalEntries = value
+            if r not in self._ErpJournalEntries:
+                self._ErpJournalEntries.append(r)
 
     ErpJournalEntries = property(getErpJournalEntries, setErpJournalEntries)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py b/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py
index 4ae686b..27e6466 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py
@@ -122,11 +122,13 @@ class Diagram(Document):
     def setGmlDiagramObjects(self, value):
         for p in self._GmlDiagramObjects:
             filtered = [q for q in p.Diagrams if q != self]
-            self._GmlDiagramObjects._Diagrams = filtered
+            p._Diagrams = filtered
+        self._GmlDiagramObjects = []
         for r in value:
             if self not in r._Diagrams:
                 r._Diagrams.append(self)
-        self._GmlDiagramObjects = value
+            if r not in self._GmlDiagramObjects:
+                self._GmlDiagramObjects.append(r)
 
     GmlDiagramObjects = property(getGmlDiagramObjects, setGmlDiagramObjects)
 
@@ -149,11 +151,13 @@ class Diagram(Document):
     def setDesignLocations(self, value):
         for p in self._DesignLocations:
             filtered = [q for q in p.Diagrams if q != self]
-            self._DesignLocations._Diagrams = filtered
+            p._Diagrams = filtered
+        self._DesignLocations = []
         for r in value:
             if self not in r._Diagrams:
                 r._Diagrams.append(self)
-        self._DesignLocations = value
+            if r not in self._DesignLocations:
+                self._DesignLocations.append(r)
 
     DesignLocations = property(getDesignLocations, setDesignLocations)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py
index aea9ab4..60769d7 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py
@@ -80,11 +80,13 @@ class GmlDiagramObject(IdentifiedObject):
     def setGmlSelectors(self, value):
         for p in self._GmlSelectors:
             filtered = [q for q in p.GmlDiagramObjects if q != self]
-            self._GmlSelectors._GmlDiagramObjects = filtered
+            p._GmlDiagramObjects = filtered
+        self._GmlSelectors = []
         for r in value:
             if self not in r._GmlDiagramObjects:
                 r._GmlDiagramObjects.append(self)
-        self._GmlSelectors = value
+            if r not in self._GmlSelectors:
+                self._GmlSelectors.append(r)
 
     GmlSelectors = property(getGmlSelectors, setGmlSelectors)
 
@@ -107,11 +109,13 @@ class GmlDiagramObject(IdentifiedObject):
     def setDiagrams(self, value):
         for p in self._Diagrams:
             filtered = [q for q in p.GmlDiagramObjects if q != self]
-            self._Diagrams._GmlDiagramObjects = filtered
+            p._GmlDiagramObjects = filtered
+        self._Diagrams = []
         for r in value:
             if self not in r._GmlDiagramObjects:
                 r._GmlDiagramObjects.append(self)
-        self._Diagrams = value
+            if r not in self._Diagrams:
+                self._Diagrams.append(r)
 
     Diagrams = property(getDiagrams, setDiagrams)
 
@@ -134,11 +138,13 @@ class GmlDiagramObject(IdentifiedObject):
     def setCoordinateSystems(self, value):
         for p in self._CoordinateSystems:
             filtered = [q for q in p.GmlDiagramObjects if q != self]
-            self._CoordinateSystems._GmlDiagramObjects = filtered
+            p._GmlDiagramObjects = filtered
+        self._CoordinateSystems = []
         for r in value:
             if self not in r._GmlDiagramObjects:
                 r._GmlDiagramObjects.append(self)
-        self._CoordinateSystems = value
+            if r not in self._CoordinateSystems:
+                self._CoordinateSystems.append(r)
 
     CoordinateSystems = property(getCoordinateSystems, setCoordinateSystems)
 
@@ -224,11 +230,13 @@ class GmlDiagramObject(IdentifiedObject):
     def setGmlObservatins(self, value):
         for p in self._GmlObservatins:
             filtered = [q for q in p.GmlDiagramObjects if q != self]
-            self._GmlObservatins._GmlDiagramObjects = filtered
+            p._GmlDiagramObjects = filtered
+        self._GmlObservatins = []
         for r in value:
             if self not in r._GmlDiagramObjects:
                 r._GmlDiagramObjects.append(self)
-        self._GmlObservatins = value
+            if r not in self._GmlObservatins:
+                self._GmlObservatins.append(r)
 
     GmlObservatins = property(getGmlObservatins, setGmlObservatins)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py
index 8038a68..ffb91dc 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py
@@ -113,11 +113,13 @@ class GmlFeatureStyle(IdentifiedObject):
     def setGmlSymbols(self, value):
         for p in self._GmlSymbols:
             filtered = [q for q in p.GmlFeatureStyles if q != self]
-            self._GmlSymbols._GmlFeatureStyles = filtered
+            p._GmlFeatureStyles = filtered
+        self._GmlSymbols = []
         for r in value:
             if self not in r._GmlFeatureStyles:
                 r._GmlFeatureStyles.append(self)
-        self._GmlSymbols = value
+            if r not in self._GmlSymbols:
+                self._GmlSymbols.append(r)
 
     GmlSymbols = property(getGmlSymbols, setGmlSymbols)
 
@@ -182,11 +184,13 @@ class GmlFeatureStyle(IdentifiedObject):
     def setGmlFeatureTypes(self, value):
         for p in self._GmlFeatureTypes:
             filtered = [q for q in p.GmlFeatureStyles if q != self]
-            self._GmlFeatureTypes._GmlFeatureStyles = filtered
+            p._GmlFeatureStyles = filtered
+        self._GmlFeatureTypes = []
         for r in value:
             if self not in r._GmlFeatureStyles:
                 r._GmlFeatureStyles.append(self)
-        self._GmlFeatureTypes = value
+            if r not in self._GmlFeatureTypes:
+                self._GmlFeatureTypes.append(r)
 
     GmlFeatureTypes = property(getGmlFeatureTypes, setGmlFeatureTypes)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureType.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureType.py
index ef21e0e..fefe8ae 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureType.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureType.py
@@ -48,11 +48,13 @@ class GmlFeatureType(IdentifiedObject):
     def setGmlFeatureStyles(self, value):
         for p in self._GmlFeatureStyles:
             filtered = [q for q in p.GmlFeatureTypes if q != self]
-            self._GmlFeatureStyles._GmlFeatureTypes = filtered
+            p._GmlFeatureTypes = filtered
+        self._GmlFeatureStyles = []
         for r in value:
             if self not in r._GmlFeatureTypes:
                 r._GmlFeatureTypes.append(self)
-        self._GmlFeatureStyles = value
+            if r not in self._GmlFeatureStyles:
+                self._GmlFeatureStyles.append(r)
 
     GmlFeatureStyles = property(getGmlFeatureStyles, setGmlFeatureStyles)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py
index 62998f5..ec5c526 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py
@@ -84,11 +84,13 @@ class GmlFill(IdentifiedObject):
     def setGmlMarks(self, value):
         for p in self._GmlMarks:
             filtered = [q for q in p.GmlFIlls if q != self]
-            self._GmlMarks._GmlFIlls = filtered
+            p._GmlFIlls = filtered
+        self._GmlMarks = []
         for r in value:
             if self not in r._GmlFIlls:
                 r._GmlFIlls.append(self)
-        self._GmlMarks = value
+            if r not in self._GmlMarks:
+                self._GmlMarks.append(r)
 
     GmlMarks = property(getGmlMarks, setGmlMarks)
 
@@ -132,11 +134,13 @@ class GmlFill(IdentifiedObject):
     def setGmlSvgParameters(self, value):
         for p in self._GmlSvgParameters:
             filtered = [q for q in p.GmlFills if q != self]
-            self._GmlSvgParameters._GmlFills = filtered
+            p._GmlFills = filtered
+        self._GmlSvgParameters = []
         for r in value:
             if self not in r._GmlFills:
                 r._GmlFills.append(self)
-        self._GmlSvgParameters = value
+            if r not in self._GmlSvgParameters:
+                self._GmlSvgParameters.append(r)
 
     GmlSvgParameters = property(getGmlSvgParameters, setGmlSvgParameters)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py
index f4c7510..b35a4be 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py
@@ -97,11 +97,13 @@ class GmlFont(IdentifiedObject):
     def setGmlSvgParameters(self, value):
         for p in self._GmlSvgParameters:
             filtered = [q for q in p.GmlFonts if q != self]
-            self._GmlSvgParameters._GmlFonts = filtered
+            p._GmlFonts = filtered
+        self._GmlSvgParameters = []
         for r in value:
             if self not in r._GmlFonts:
                 r._GmlFonts.append(self)
-        self._GmlSvgParameters = value
+            if r not in self._GmlSvgParameters:
+                self._GmlSvgParameters.append(r)
 
     GmlSvgParameters = property(getGmlSvgParameters, setGmlSvgParameters)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py
index a0dfcc7..7d7d08e 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py
@@ -80,11 +80,13 @@ class GmlGraphic(IdentifiedObject):
     def setGmlMarks(self, value):
         for p in self._GmlMarks:
             filtered = [q for q in p.GmlGraphics if q != self]
-            self._GmlMarks._GmlGraphics = filtered
+            p._GmlGraphics = filtered
+        self._GmlMarks = []
         for r in value:
             if self not in r._GmlGraphics:
                 r._GmlGraphics.append(self)
-        self._GmlMarks = value
+            if r not in self._GmlMarks:
+                self._GmlMarks.append(r)
 
     GmlMarks = property(getGmlMarks, setGmlMarks)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlMark.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlMark.py
index de445fc..6dd69b3 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlMark.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlMark.py
@@ -60,11 +60,13 @@ class GmlMark(IdentifiedObject):
     def setGmlGraphics(self, value):
         for p in self._GmlGraphics:
             filtered = [q for q in p.GmlMarks if q != self]
-            self._GmlGraphics._GmlMarks = filtered
+            p._GmlMarks = filtered
+        self._GmlGraphics = []
         for r in value:
             if self not in r._GmlMarks:
                 r._GmlMarks.append(self)
-        self._GmlGraphics = value
+            if r not in self._GmlGraphics:
+                self._GmlGraphics.append(r)
 
     GmlGraphics = property(getGmlGraphics, setGmlGraphics)
 
@@ -87,11 +89,13 @@ class GmlMark(IdentifiedObject):
     def setGmlStrokes(self, value):
         for p in self._GmlStrokes:
             filtered = [q for q in p.GmlMarks if q != self]
-            self._GmlStrokes._GmlMarks = filtered
+            p._GmlMarks = filtered
+        self._GmlStrokes = []
         for r in value:
             if self not in r._GmlMarks:
                 r._GmlMarks.append(self)
-        self._GmlStrokes = value
+            if r not in self._GmlStrokes:
+                self._GmlStrokes.append(r)
 
     GmlStrokes = property(getGmlStrokes, setGmlStrokes)
 
@@ -114,11 +118,13 @@ class GmlMark(IdentifiedObject):
     def setGmlFIlls(self, value):
         for p in self._GmlFIlls:
             filtered = [q for q in p.GmlMarks if q != self]
-            self._GmlFIlls._GmlMarks = filtered
+            p._GmlMarks = filtered
+        self._GmlFIlls = []
         for r in value:
             if self not in r._GmlMarks:
                 r._GmlMarks.append(self)
-        self._GmlFIlls = value
+            if r not in self._GmlFIlls:
+                self._GmlFIlls.append(r)
 
     GmlFIlls = property(getGmlFIlls, setGmlFIlls)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py
index 41765d0..c7e3cf2 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py
@@ -72,11 +72,13 @@ class GmlObservation(Element):
     def setGmlDiagramObjects(self, value):
         for p in self._GmlDiagramObjects:
             filtered = [q for q in p.GmlObservatins if q != self]
-            self._GmlDiagramObjects._GmlObservatins = filtered
+            p._GmlObservatins = filtered
+        self._GmlDiagramObjects = []
         for r in value:
             if self not in r._GmlObservatins:
                 r._GmlObservatins.append(self)
-        self._GmlDiagramObjects = value
+            if r not in self._GmlDiagramObjects:
+                self._GmlDiagramObjects.append(r)
 
     GmlDiagramObjects = property(getGmlDiagramObjects, setGmlDiagramObjects)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py
index f31c07b..376cfe1 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py
@@ -73,11 +73,13 @@ class GmlSelector(IdentifiedObject):
     def setGmlDiagramObjects(self, value):
         for p in self._GmlDiagramObjects:
             filtered = [q for q in p.GmlSelectors if q != self]
-            self._GmlDiagramObjects._GmlSelectors = filtered
+            p._GmlSelectors = filtered
+        self._GmlDiagramObjects = []
         for r in value:
             if self not in r._GmlSelectors:
                 r._GmlSelectors.append(self)
-        self._GmlDiagramObjects = value
+            if r not in self._GmlDiagramObjects:
+                self._GmlDiagramObjects.append(r)
 
     GmlDiagramObjects = property(getGmlDiagramObjects, setGmlDiagramObjects)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py
index a182332..21779eb 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py
@@ -129,11 +129,13 @@ class GmlStroke(IdentifiedObject):
     def setGmlMarks(self, value):
         for p in self._GmlMarks:
             filtered = [q for q in p.GmlStrokes if q != self]
-            self._GmlMarks._GmlStrokes = filtered
+            p._GmlStrokes = filtered
+        self._GmlMarks = []
         for r in value:
             if self not in r._GmlStrokes:
                 r._GmlStrokes.append(self)
-        self._GmlMarks = value
+            if r not in self._GmlMarks:
+                self._GmlMarks.append(r)
 
     GmlMarks = property(getGmlMarks, setGmlMarks)
 
@@ -156,11 +158,13 @@ class GmlStroke(IdentifiedObject):
     def setGmlSvgParameters(self, value):
         for p in self._GmlSvgParameters:
             filtered = [q for q in p.GmlStokes if q != self]
-            self._GmlSvgParameters._GmlStokes = filtered
+            p._GmlStokes = filtered
+        self._GmlSvgParameters = []
         for r in value:
             if self not in r._GmlStokes:
                 r._GmlStokes.append(self)
-        self._GmlSvgParameters = value
+            if r not in self._GmlSvgParameters:
+                self._GmlSvgParameters.append(r)
 
     GmlSvgParameters = property(getGmlSvgParameters, setGmlSvgParameters)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSvgParameter.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSvgParameter.py
index 2f261bc..35c7a47 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSvgParameter.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSvgParameter.py
@@ -64,11 +64,13 @@ class GmlSvgParameter(IdentifiedObject):
     def setGmlStokes(self, value):
         for p in self._GmlStokes:
             filtered = [q for q in p.GmlSvgParameters if q != self]
-            self._GmlStokes._GmlSvgParameters = filtered
+            p._GmlSvgParameters = filtered
+        self._GmlStokes = []
         for r in value:
             if self not in r._GmlSvgParameters:
                 r._GmlSvgParameters.append(self)
-        self._GmlStokes = value
+            if r not in self._GmlStokes:
+                self._GmlStokes.append(r)
 
     GmlStokes = property(getGmlStokes, setGmlStokes)
 
@@ -91,11 +93,13 @@ class GmlSvgParameter(IdentifiedObject):
     def setGmlFonts(self, value):
         for p in self._GmlFonts:
             filtered = [q for q in p.GmlSvgParameters if q != self]
-            self._GmlFonts._GmlSvgParameters = filtered
+            p._GmlSvgParameters = filtered
+        self._GmlFonts = []
         for r in value:
             if self not in r._GmlSvgParameters:
                 r._GmlSvgParameters.append(self)
-        self._GmlFonts = value
+            if r not in self._GmlFonts:
+                self._GmlFonts.append(r)
 
     GmlFonts = property(getGmlFonts, setGmlFonts)
 
@@ -118,11 +122,13 @@ class GmlSvgParameter(IdentifiedObject):
     def setGmlFills(self, value):
         for p in self._GmlFills:
             filtered = [q for q in p.GmlSvgParameters if q != self]
-            self._GmlFills._GmlSvgParameters = filtered
+            p._GmlSvgParameters = filtered
+        self._GmlFills = []
         for r in value:
             if self not in r._GmlSvgParameters:
                 r._GmlSvgParameters.append(self)
-        self._GmlFills = value
+            if r not in self._GmlFills:
+                self._GmlFills.append(r)
 
     GmlFills = property(getGmlFills, setGmlFills)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSymbol.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSymbol.py
index e30aee4..8a4e4a7 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSymbol.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSymbol.py
@@ -64,11 +64,13 @@ class GmlSymbol(IdentifiedObject):
     def setGmlFeatureStyles(self, value):
         for p in self._GmlFeatureStyles:
             filtered = [q for q in p.GmlSymbols if q != self]
-            self._GmlFeatureStyles._GmlSymbols = filtered
+            p._GmlSymbols = filtered
+        self._GmlFeatureStyles = []
         for r in value:
             if self not in r._GmlSymbols:
                 r._GmlSymbols.append(self)
-        self._GmlFeatureStyles = value
+            if r not in self._GmlFeatureStyles:
+                self._GmlFeatureStyles.append(r)
 
     GmlFeatureStyles = property(getGmlFeatureStyles, setGmlFeatureStyles)
 
diff --git a/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py b/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py
index 169387a..f4d789c 100644
--- a/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py
+++ b/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py
@@ -76,11 +76,13 @@ class LoadMgmtFunction(EndDeviceFunction):
     def setSwitches(self, value):
         for p in self._Switches:
             filtered = [q for q in p.LoadMgmtFunctions if q != self]
-            self._Switches._LoadMgmtFunctions = filtered
+            p._LoadMgmtFunctions = filtered
+        self._Switches = []
         for r in value:
             if self not in r._LoadMgmtFunctions:
                 r._LoadMgmtFunctions.append(self)
-        self._Switches = value
+            if r not in self._Switches:
+                self._Switches.append(r)
 
     Switches = property(getSwitches, setSwitches)
 
diff --git a/CIM15/IEC61970/Informative/InfLocations/Hazard.py b/CIM15/IEC61970/Informative/InfLocations/Hazard.py
index 9903c50..e57311d 100644
--- a/CIM15/IEC61970/Informative/InfLocations/Hazard.py
+++ b/CIM15/IEC61970/Informative/InfLocations/Hazard.py
@@ -56,11 +56,13 @@ class Hazard(IdentifiedObject):
     def setLocations(self, value):
         for p in self._Locations:
             filtered = [q for q in p.Hazards if q != self]
-            self._Locations._Hazards = filtered
+            p._Hazards = filtered
+        self._Locations = []
         for r in value:
             if self not in r._Hazards:
                 r._Hazards.append(self)
-        self._Locations = value
+            if r not in self._Locations:
+                self._Locations.append(r)
 
     Locations = property(getLocations, setLocations)
 
diff --git a/CIM15/IEC61970/Informative/InfLocations/LandProperty.py b/CIM15/IEC61970/Informative/InfLocations/LandProperty.py
index 1506c9c..a4960b8 100644
--- a/CIM15/IEC61970/Informative/InfLocations/LandProperty.py
+++ b/CIM15/IEC61970/Informative/InfLocations/LandProperty.py
@@ -153,11 +153,13 @@ class LandProperty(IdentifiedObject):
     def setErpOrganisationRoles(self, value):
         for p in self._ErpOrganisationRoles:
             filtered = [q for q in p.LandProperty if q != self]
-            self._ErpOrganisationRoles._LandProperty = filtered
+            p._LandProperty = filtered
+        self._ErpOrganisationRoles = []
         for r in value:
             if self not in r._LandProperty:
                 r._LandProperty.append(self)
-        self._ErpOrganisationRoles = value
+            if r not in self._ErpOrganisationRoles:
+                self._ErpOrganisationRoles.append(r)
 
     ErpOrganisationRoles = property(getErpOrganisationRoles, setErpOrganisationRoles)
 
@@ -180,11 +182,13 @@ class LandProperty(IdentifiedObject):
     def setAssetContainers(self, value):
         for p in self._AssetContainers:
             filtered = [q for q in p.LandProperties if q != self]
-            self._AssetContainers._LandProperties = filtered
+            p._LandProperties = filtered
+        self._AssetContainers = []
         for r in value:
             if self not in r._LandProperties:
                 r._LandProperties.append(self)
-        self._AssetContainers = value
+            if r not in self._AssetContainers:
+                self._AssetContainers.append(r)
 
     AssetContainers = property(getAssetContainers, setAssetContainers)
 
@@ -208,11 +212,13 @@ class LandProperty(IdentifiedObject):
     def setLocations(self, value):
         for p in self._Locations:
             filtered = [q for q in p.LandProperties if q != self]
-            self._Locations._LandProperties = filtered
+            p._LandProperties = filtered
+        self._Locations = []
         for r in value:
             if self not in r._LandProperties:
                 r._LandProperties.append(self)
-        self._Locations = value
+            if r not in self._Locations:
+                self._Locations.append(r)
 
     Locations = property(getLocations, setLocations)
 
@@ -236,11 +242,13 @@ class LandProperty(IdentifiedObject):
     def setRightOfWays(self, value):
         for p in self._RightOfWays:
             filtered = [q for q in p.LandProperties if q != self]
-            self._RightOfWays._LandProperties = filtered
+            p._LandProperties = filtered
+        self._RightOfWays = []
         for r in value:
             if self not in r._LandProperties:
                 r._LandProperties.append(self)
-        self._RightOfWays = value
+            if r not in self._RightOfWays:
+                self._RightOfWays.append(r)
 
     RightOfWays = property(getRightOfWays, setRightOfWays)
 
diff --git a/CIM15/IEC61970/Informative/InfLocations/OrgPropertyRole.py b/CIM15/IEC61970/Informative/InfLocations/OrgPropertyRole.py
index 52dc306..91935b1 100644
--- a/CIM15/IEC61970/Informative/InfLocations/OrgPropertyRole.py
+++ b/CIM15/IEC61970/Informative/InfLocations/OrgPropertyRole.py
@@ -52,11 +52,13 @@ class OrgPropertyRole(Role):
     def setLandProperty(self, value):
         for p in self._LandProperty:
             filtered = [q for q in p.ErpOrganisationRoles if q != self]
-            self._LandProperty._ErpOrganisationRoles = filtered
+            p._ErpOrganisationRoles = filtered
+        self._LandProperty = []
         for r in value:
             if self not in r._ErpOrganisationRoles:
                 r._ErpOrganisationRoles.append(self)
-        self._LandProperty = value
+            if r not in self._LandProperty:
+                self._LandProperty.append(r)
 
     LandProperty = property(getLandProperty, setLandProperty)
 
diff --git a/CIM15/IEC61970/Informative/InfLocations/RedLine.py b/CIM15/IEC61970/Informative/InfLocations/RedLine.py
index 4fc35d4..4abb6f8 100644
--- a/CIM15/IEC61970/Informative/InfLocations/RedLine.py
+++ b/CIM15/IEC61970/Informative/InfLocations/RedLine.py
@@ -51,11 +51,13 @@ class RedLine(IdentifiedObject):
     def setLocations(self, value):
         for p in self._Locations:
             filtered = [q for q in p.RedLines if q != self]
-            self._Locations._RedLines = filtered
+            p._RedLines = filtered
+        self._Locations = []
         for r in value:
             if self not in r._RedLines:
                 r._RedLines.append(self)
-        self._Locations = value
+            if r not in self._Locations:
+                self._Locations.append(r)
 
     Locations = property(getLocations, setLocations)
 
diff --git a/CIM15/IEC61970/Informative/InfLocations/RightOfWay.py b/CIM15/IEC61970/Informative/InfLocations/RightOfWay.py
index f10bac7..c72737e 100644
--- a/CIM15/IEC61970/Informative/InfLocations/RightOfWay.py
+++ b/CIM15/IEC61970/Informative/InfLocations/RightOfWay.py
@@ -53,11 +53,13 @@ class RightOfWay(Agreement):
     def setLandProperties(self, value):
         for p in self._LandProperties:
             filtered = [q for q in p.RightOfWays if q != self]
-            self._LandProperties._RightOfWays = filtered
+            p._RightOfWays = filtered
+        self._LandProperties = []
         for r in value:
             if self not in r._RightOfWays:
                 r._RightOfWays.append(self)
-        self._LandProperties = value
+            if r not in self._LandProperties:
+                self._LandProperties.append(r)
 
     LandProperties = property(getLandProperties, setLandProperties)
 
diff --git a/CIM15/IEC61970/Informative/InfLocations/Route.py b/CIM15/IEC61970/Informative/InfLocations/Route.py
index a7e7b3f..d62fd3b 100644
--- a/CIM15/IEC61970/Informative/InfLocations/Route.py
+++ b/CIM15/IEC61970/Informative/InfLocations/Route.py
@@ -82,11 +82,13 @@ class Route(IdentifiedObject):
     def setLocations(self, value):
         for p in self._Locations:
             filtered = [q for q in p.Routes if q != self]
-            self._Locations._Routes = filtered
+            p._Routes = filtered
+        self._Locations = []
         for r in value:
             if self not in r._Routes:
                 r._Routes.append(self)
-        self._Locations = value
+            if r not in self._Locations:
+                self._Locations.append(r)
 
     Locations = property(getLocations, setLocations)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/CallBack.py b/CIM15/IEC61970/Informative/InfOperations/CallBack.py
index b55eefc..cefba3b 100644
--- a/CIM15/IEC61970/Informative/InfOperations/CallBack.py
+++ b/CIM15/IEC61970/Informative/InfOperations/CallBack.py
@@ -100,11 +100,13 @@ class CallBack(IdentifiedObject):
     def setErpPersons(self, value):
         for p in self._ErpPersons:
             filtered = [q for q in p.CallBacks if q != self]
-            self._ErpPersons._CallBacks = filtered
+            p._CallBacks = filtered
+        self._ErpPersons = []
         for r in value:
             if self not in r._CallBacks:
                 r._CallBacks.append(self)
-        self._ErpPersons = value
+            if r not in self._ErpPersons:
+                self._ErpPersons.append(r)
 
     ErpPersons = property(getErpPersons, setErpPersons)
 
@@ -127,11 +129,13 @@ class CallBack(IdentifiedObject):
     def setTroubleTickets(self, value):
         for p in self._TroubleTickets:
             filtered = [q for q in p.CallBacks if q != self]
-            self._TroubleTickets._CallBacks = filtered
+            p._CallBacks = filtered
+        self._TroubleTickets = []
         for r in value:
             if self not in r._CallBacks:
                 r._CallBacks.append(self)
-        self._TroubleTickets = value
+            if r not in self._TroubleTickets:
+                self._TroubleTickets.append(r)
 
     TroubleTickets = property(getTroubleTickets, setTroubleTickets)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py b/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py
index f7565c9..2339e98 100644
--- a/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py
+++ b/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py
@@ -59,11 +59,13 @@ class ChangeSet(IdentifiedObject):
     def setNetworkDataSets(self, value):
         for p in self._NetworkDataSets:
             filtered = [q for q in p.ChangeSets if q != self]
-            self._NetworkDataSets._ChangeSets = filtered
+            p._ChangeSets = filtered
+        self._NetworkDataSets = []
         for r in value:
             if self not in r._ChangeSets:
                 r._ChangeSets.append(self)
-        self._NetworkDataSets = value
+            if r not in self._NetworkDataSets:
+                self._NetworkDataSets.append(r)
 
     NetworkDataSets = property(getNetworkDataSets, setNetworkDataSets)
 
@@ -109,11 +111,13 @@ class ChangeSet(IdentifiedObject):
     def setDocuments(self, value):
         for p in self._Documents:
             filtered = [q for q in p.ChangeSets if q != self]
-            self._Documents._ChangeSets = filtered
+            p._ChangeSets = filtered
+        self._Documents = []
         for r in value:
             if self not in r._ChangeSets:
                 r._ChangeSets.append(self)
-        self._Documents = value
+            if r not in self._Documents:
+                self._Documents.append(r)
 
     Documents = property(getDocuments, setDocuments)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/Circuit.py b/CIM15/IEC61970/Informative/InfOperations/Circuit.py
index e822be8..59c5c6d 100644
--- a/CIM15/IEC61970/Informative/InfOperations/Circuit.py
+++ b/CIM15/IEC61970/Informative/InfOperations/Circuit.py
@@ -48,11 +48,13 @@ class Circuit(EquipmentContainer):
     def setCircuitSections(self, value):
         for p in self._CircuitSections:
             filtered = [q for q in p.Circuits if q != self]
-            self._CircuitSections._Circuits = filtered
+            p._Circuits = filtered
+        self._CircuitSections = []
         for r in value:
             if self not in r._Circuits:
                 r._Circuits.append(self)
-        self._CircuitSections = value
+            if r not in self._CircuitSections:
+                self._CircuitSections.append(r)
 
     CircuitSections = property(getCircuitSections, setCircuitSections)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py b/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py
index a4d0d76..4bcf357 100644
--- a/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py
+++ b/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py
@@ -77,11 +77,13 @@ class CircuitSection(IdentifiedObject):
     def setCircuits(self, value):
         for p in self._Circuits:
             filtered = [q for q in p.CircuitSections if q != self]
-            self._Circuits._CircuitSections = filtered
+            p._CircuitSections = filtered
+        self._Circuits = []
         for r in value:
             if self not in r._CircuitSections:
                 r._CircuitSections.append(self)
-        self._Circuits = value
+            if r not in self._Circuits:
+                self._Circuits.append(r)
 
     Circuits = property(getCircuits, setCircuits)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/IncidentCode.py b/CIM15/IEC61970/Informative/InfOperations/IncidentCode.py
index 12a987b..5073058 100644
--- a/CIM15/IEC61970/Informative/InfOperations/IncidentCode.py
+++ b/CIM15/IEC61970/Informative/InfOperations/IncidentCode.py
@@ -52,11 +52,13 @@ class IncidentCode(IdentifiedObject):
     def setIncidentRecords(self, value):
         for p in self._IncidentRecords:
             filtered = [q for q in p.IncidentCodes if q != self]
-            self._IncidentRecords._IncidentCodes = filtered
+            p._IncidentCodes = filtered
+        self._IncidentRecords = []
         for r in value:
             if self not in r._IncidentCodes:
                 r._IncidentCodes.append(self)
-        self._IncidentRecords = value
+            if r not in self._IncidentRecords:
+                self._IncidentRecords.append(r)
 
     IncidentRecords = property(getIncidentRecords, setIncidentRecords)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py b/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py
index c55e4ce..1b9b222 100644
--- a/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py
+++ b/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py
@@ -79,11 +79,13 @@ class IncidentRecord(Document):
     def setIncidentCodes(self, value):
         for p in self._IncidentCodes:
             filtered = [q for q in p.IncidentRecords if q != self]
-            self._IncidentCodes._IncidentRecords = filtered
+            p._IncidentRecords = filtered
+        self._IncidentCodes = []
         for r in value:
             if self not in r._IncidentRecords:
                 r._IncidentRecords.append(self)
-        self._IncidentCodes = value
+            if r not in self._IncidentCodes:
+                self._IncidentCodes.append(r)
 
     IncidentCodes = property(getIncidentCodes, setIncidentCodes)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py b/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py
index be829d3..058d0bc 100644
--- a/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py
+++ b/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py
@@ -69,11 +69,13 @@ class NetworkDataSet(IdentifiedObject):
     def setDocuments(self, value):
         for p in self._Documents:
             filtered = [q for q in p.NetworkDataSets if q != self]
-            self._Documents._NetworkDataSets = filtered
+            p._NetworkDataSets = filtered
+        self._Documents = []
         for r in value:
             if self not in r._NetworkDataSets:
                 r._NetworkDataSets.append(self)
-        self._Documents = value
+            if r not in self._Documents:
+                self._Documents.append(r)
 
     Documents = property(getDocuments, setDocuments)
 
@@ -117,11 +119,13 @@ class NetworkDataSet(IdentifiedObject):
     def setChangeSets(self, value):
         for p in self._ChangeSets:
             filtered = [q for q in p.NetworkDataSets if q != self]
-            self._ChangeSets._NetworkDataSets = filtered
+            p._NetworkDataSets = filtered
+        self._ChangeSets = []
         for r in value:
             if self not in r._NetworkDataSets:
                 r._NetworkDataSets.append(self)
-        self._ChangeSets = value
+            if r not in self._ChangeSets:
+                self._ChangeSets.append(r)
 
     ChangeSets = property(getChangeSets, setChangeSets)
 
@@ -144,11 +148,13 @@ class NetworkDataSet(IdentifiedObject):
     def setPowerSystemResources(self, value):
         for p in self._PowerSystemResources:
             filtered = [q for q in p.NetworkDataSets if q != self]
-            self._PowerSystemResources._NetworkDataSets = filtered
+            p._NetworkDataSets = filtered
+        self._PowerSystemResources = []
         for r in value:
             if self not in r._NetworkDataSets:
                 r._NetworkDataSets.append(self)
-        self._PowerSystemResources = value
+            if r not in self._PowerSystemResources:
+                self._PowerSystemResources.append(r)
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageCode.py b/CIM15/IEC61970/Informative/InfOperations/OutageCode.py
index adab655..1a1cdd1 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageCode.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageCode.py
@@ -56,11 +56,13 @@ class OutageCode(IdentifiedObject):
     def setOutageRecords(self, value):
         for p in self._OutageRecords:
             filtered = [q for q in p.OutageCodes if q != self]
-            self._OutageRecords._OutageCodes = filtered
+            p._OutageCodes = filtered
+        self._OutageRecords = []
         for r in value:
             if self not in r._OutageCodes:
                 r._OutageCodes.append(self)
-        self._OutageRecords = value
+            if r not in self._OutageRecords:
+                self._OutageRecords.append(r)
 
     OutageRecords = property(getOutageRecords, setOutageRecords)
 
@@ -83,11 +85,13 @@ class OutageCode(IdentifiedObject):
     def setOutageSteps(self, value):
         for p in self._OutageSteps:
             filtered = [q for q in p.OutageCodes if q != self]
-            self._OutageSteps._OutageCodes = filtered
+            p._OutageCodes = filtered
+        self._OutageSteps = []
         for r in value:
             if self not in r._OutageCodes:
                 r._OutageCodes.append(self)
-        self._OutageSteps = value
+            if r not in self._OutageSteps:
+                self._OutageSteps.append(r)
 
     OutageSteps = property(getOutageSteps, setOutageSteps)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageNotification.py b/CIM15/IEC61970/Informative/InfOperations/OutageNotification.py
index bd94a74..14e0bab 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageNotification.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageNotification.py
@@ -60,11 +60,13 @@ class OutageNotification(Document):
     def setCustomerDatas(self, value):
         for p in self._CustomerDatas:
             filtered = [q for q in p.OutageNotifications if q != self]
-            self._CustomerDatas._OutageNotifications = filtered
+            p._OutageNotifications = filtered
+        self._CustomerDatas = []
         for r in value:
             if self not in r._OutageNotifications:
                 r._OutageNotifications.append(self)
-        self._CustomerDatas = value
+            if r not in self._CustomerDatas:
+                self._CustomerDatas.append(r)
 
     CustomerDatas = property(getCustomerDatas, setCustomerDatas)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py b/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py
index 5b30595..2118db8 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py
@@ -77,11 +77,13 @@ class OutageRecord(Document):
     def setOutageCodes(self, value):
         for p in self._OutageCodes:
             filtered = [q for q in p.OutageRecords if q != self]
-            self._OutageCodes._OutageRecords = filtered
+            p._OutageRecords = filtered
+        self._OutageCodes = []
         for r in value:
             if self not in r._OutageRecords:
                 r._OutageRecords.append(self)
-        self._OutageCodes = value
+            if r not in self._OutageCodes:
+                self._OutageCodes.append(r)
 
     OutageCodes = property(getOutageCodes, setOutageCodes)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageStep.py b/CIM15/IEC61970/Informative/InfOperations/OutageStep.py
index 7031b43..3750244 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageStep.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageStep.py
@@ -114,11 +114,13 @@ class OutageStep(IdentifiedObject):
     def setCrews(self, value):
         for p in self._Crews:
             filtered = [q for q in p.OutageSteps if q != self]
-            self._Crews._OutageSteps = filtered
+            p._OutageSteps = filtered
+        self._Crews = []
         for r in value:
             if self not in r._OutageSteps:
                 r._OutageSteps.append(self)
-        self._Crews = value
+            if r not in self._Crews:
+                self._Crews.append(r)
 
     Crews = property(getCrews, setCrews)
 
@@ -184,11 +186,13 @@ class OutageStep(IdentifiedObject):
     def setOutageCodes(self, value):
         for p in self._OutageCodes:
             filtered = [q for q in p.OutageSteps if q != self]
-            self._OutageCodes._OutageSteps = filtered
+            p._OutageSteps = filtered
+        self._OutageCodes = []
         for r in value:
             if self not in r._OutageSteps:
                 r._OutageSteps.append(self)
-        self._OutageCodes = value
+            if r not in self._OutageCodes:
+                self._OutageCodes.append(r)
 
     OutageCodes = property(getOutageCodes, setOutageCodes)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py b/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py
index d27df3d..6db997a 100644
--- a/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py
+++ b/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py
@@ -101,11 +101,13 @@ class SwitchingSchedule(Document):
     def setCrews(self, value):
         for p in self._Crews:
             filtered = [q for q in p.SwitchingSchedules if q != self]
-            self._Crews._SwitchingSchedules = filtered
+            p._SwitchingSchedules = filtered
+        self._Crews = []
         for r in value:
             if self not in r._SwitchingSchedules:
                 r._SwitchingSchedules.append(self)
-        self._Crews = value
+            if r not in self._Crews:
+                self._Crews.append(r)
 
     Crews = property(getCrews, setCrews)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/SwitchingStep.py b/CIM15/IEC61970/Informative/InfOperations/SwitchingStep.py
index cc92d60..544da86 100644
--- a/CIM15/IEC61970/Informative/InfOperations/SwitchingStep.py
+++ b/CIM15/IEC61970/Informative/InfOperations/SwitchingStep.py
@@ -114,11 +114,13 @@ class SwitchingStep(IdentifiedObject):
     def setPowerSystemResources(self, value):
         for p in self._PowerSystemResources:
             filtered = [q for q in p.ScheduleSteps if q != self]
-            self._PowerSystemResources._ScheduleSteps = filtered
+            p._ScheduleSteps = filtered
+        self._PowerSystemResources = []
         for r in value:
             if self not in r._ScheduleSteps:
                 r._ScheduleSteps.append(self)
-        self._PowerSystemResources = value
+            if r not in self._PowerSystemResources:
+                self._PowerSystemResources.append(r)
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/TroubleTicket.py b/CIM15/IEC61970/Informative/InfOperations/TroubleTicket.py
index c94c164..6cb59c2 100644
--- a/CIM15/IEC61970/Informative/InfOperations/TroubleTicket.py
+++ b/CIM15/IEC61970/Informative/InfOperations/TroubleTicket.py
@@ -95,11 +95,13 @@ class TroubleTicket(Document):
     def setCallBacks(self, value):
         for p in self._CallBacks:
             filtered = [q for q in p.TroubleTickets if q != self]
-            self._CallBacks._TroubleTickets = filtered
+            p._TroubleTickets = filtered
+        self._CallBacks = []
         for r in value:
             if self not in r._TroubleTickets:
                 r._TroubleTickets.append(self)
-        self._CallBacks = value
+            if r not in self._CallBacks:
+                self._CallBacks.append(r)
 
     CallBacks = property(getCallBacks, setCallBacks)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Appointment.py b/CIM15/IEC61970/Informative/InfWork/Appointment.py
index 8a31a72..bff55ad 100644
--- a/CIM15/IEC61970/Informative/InfWork/Appointment.py
+++ b/CIM15/IEC61970/Informative/InfWork/Appointment.py
@@ -69,11 +69,13 @@ class Appointment(ScheduledEvent):
     def setErpPersons(self, value):
         for p in self._ErpPersons:
             filtered = [q for q in p.Appointments if q != self]
-            self._ErpPersons._Appointments = filtered
+            p._Appointments = filtered
+        self._ErpPersons = []
         for r in value:
             if self not in r._Appointments:
                 r._Appointments.append(self)
-        self._ErpPersons = value
+            if r not in self._ErpPersons:
+                self._ErpPersons.append(r)
 
     ErpPersons = property(getErpPersons, setErpPersons)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Assignment.py b/CIM15/IEC61970/Informative/InfWork/Assignment.py
index 0c83a2f..3e83a29 100644
--- a/CIM15/IEC61970/Informative/InfWork/Assignment.py
+++ b/CIM15/IEC61970/Informative/InfWork/Assignment.py
@@ -52,11 +52,13 @@ class Assignment(Document):
     def setCrews(self, value):
         for p in self._Crews:
             filtered = [q for q in p.Assignments if q != self]
-            self._Crews._Assignments = filtered
+            p._Assignments = filtered
+        self._Crews = []
         for r in value:
             if self not in r._Assignments:
                 r._Assignments.append(self)
-        self._Crews = value
+            if r not in self._Crews:
+                self._Crews.append(r)
 
     Crews = property(getCrews, setCrews)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CUAsset.py b/CIM15/IEC61970/Informative/InfWork/CUAsset.py
index a7f3338..fab8844 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUAsset.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUAsset.py
@@ -63,11 +63,13 @@ class CUAsset(IdentifiedObject):
     def setCompatibleUnits(self, value):
         for p in self._CompatibleUnits:
             filtered = [q for q in p.CUAssets if q != self]
-            self._CompatibleUnits._CUAssets = filtered
+            p._CUAssets = filtered
+        self._CompatibleUnits = []
         for r in value:
             if self not in r._CUAssets:
                 r._CUAssets.append(self)
-        self._CompatibleUnits = value
+            if r not in self._CompatibleUnits:
+                self._CompatibleUnits.append(r)
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CUContractorItem.py b/CIM15/IEC61970/Informative/InfWork/CUContractorItem.py
index 7721659..53cfcaf 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUContractorItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUContractorItem.py
@@ -59,11 +59,13 @@ class CUContractorItem(IdentifiedObject):
     def setCompatibleUnits(self, value):
         for p in self._CompatibleUnits:
             filtered = [q for q in p.CUContractorItems if q != self]
-            self._CompatibleUnits._CUContractorItems = filtered
+            p._CUContractorItems = filtered
+        self._CompatibleUnits = []
         for r in value:
             if self not in r._CUContractorItems:
                 r._CUContractorItems.append(self)
-        self._CompatibleUnits = value
+            if r not in self._CompatibleUnits:
+                self._CompatibleUnits.append(r)
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CUGroup.py b/CIM15/IEC61970/Informative/InfWork/CUGroup.py
index cac6890..f728ff6 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUGroup.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUGroup.py
@@ -84,11 +84,13 @@ class CUGroup(IdentifiedObject):
     def setParentCUGroups(self, value):
         for p in self._ParentCUGroups:
             filtered = [q for q in p.ChildCUGroups if q != self]
-            self._ParentCUGroups._ChildCUGroups = filtered
+            p._ChildCUGroups = filtered
+        self._ParentCUGroups = []
         for r in value:
             if self not in r._ChildCUGroups:
                 r._ChildCUGroups.append(self)
-        self._ParentCUGroups = value
+            if r not in self._ParentCUGroups:
+                self._ParentCUGroups.append(r)
 
     ParentCUGroups = property(getParentCUGroups, setParentCUGroups)
 
@@ -111,11 +113,13 @@ class CUGroup(IdentifiedObject):
     def setChildCUGroups(self, value):
         for p in self._ChildCUGroups:
             filtered = [q for q in p.ParentCUGroups if q != self]
-            self._ChildCUGroups._ParentCUGroups = filtered
+            p._ParentCUGroups = filtered
+        self._ChildCUGroups = []
         for r in value:
             if self not in r._ParentCUGroups:
                 r._ParentCUGroups.append(self)
-        self._ChildCUGroups = value
+            if r not in self._ChildCUGroups:
+                self._ChildCUGroups.append(r)
 
     ChildCUGroups = property(getChildCUGroups, setChildCUGroups)
 
@@ -140,11 +144,13 @@ class CUGroup(IdentifiedObject):
     def setDesignLocationCUs(self, value):
         for p in self._DesignLocationCUs:
             filtered = [q for q in p.CUGroups if q != self]
-            self._DesignLocationCUs._CUGroups = filtered
+            p._CUGroups = filtered
+        self._DesignLocationCUs = []
         for r in value:
             if self not in r._CUGroups:
                 r._CUGroups.append(self)
-        self._DesignLocationCUs = value
+            if r not in self._DesignLocationCUs:
+                self._DesignLocationCUs.append(r)
 
     DesignLocationCUs = property(getDesignLocationCUs, setDesignLocationCUs)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CULaborItem.py b/CIM15/IEC61970/Informative/InfWork/CULaborItem.py
index b7cad0d..263bfc6 100644
--- a/CIM15/IEC61970/Informative/InfWork/CULaborItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/CULaborItem.py
@@ -71,11 +71,13 @@ class CULaborItem(IdentifiedObject):
     def setCompatibleUnits(self, value):
         for p in self._CompatibleUnits:
             filtered = [q for q in p.CULaborItems if q != self]
-            self._CompatibleUnits._CULaborItems = filtered
+            p._CULaborItems = filtered
+        self._CompatibleUnits = []
         for r in value:
             if self not in r._CULaborItems:
                 r._CULaborItems.append(self)
-        self._CompatibleUnits = value
+            if r not in self._CompatibleUnits:
+                self._CompatibleUnits.append(r)
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
@@ -116,11 +118,13 @@ class CULaborItem(IdentifiedObject):
     def setQualificationRequirements(self, value):
         for p in self._QualificationRequirements:
             filtered = [q for q in p.CULaborItems if q != self]
-            self._QualificationRequirements._CULaborItems = filtered
+            p._CULaborItems = filtered
+        self._QualificationRequirements = []
         for r in value:
             if self not in r._CULaborItems:
                 r._CULaborItems.append(self)
-        self._QualificationRequirements = value
+            if r not in self._QualificationRequirements:
+                self._QualificationRequirements.append(r)
 
     QualificationRequirements = property(getQualificationRequirements, setQualificationRequirements)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CUMaterialItem.py b/CIM15/IEC61970/Informative/InfWork/CUMaterialItem.py
index e3b091d..aded4d2 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUMaterialItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUMaterialItem.py
@@ -69,11 +69,13 @@ class CUMaterialItem(IdentifiedObject):
     def setPropertyUnits(self, value):
         for p in self._PropertyUnits:
             filtered = [q for q in p.CUMaterialItems if q != self]
-            self._PropertyUnits._CUMaterialItems = filtered
+            p._CUMaterialItems = filtered
+        self._PropertyUnits = []
         for r in value:
             if self not in r._CUMaterialItems:
                 r._CUMaterialItems.append(self)
-        self._PropertyUnits = value
+            if r not in self._PropertyUnits:
+                self._PropertyUnits.append(r)
 
     PropertyUnits = property(getPropertyUnits, setPropertyUnits)
 
@@ -96,11 +98,13 @@ class CUMaterialItem(IdentifiedObject):
     def setCompatibleUnits(self, value):
         for p in self._CompatibleUnits:
             filtered = [q for q in p.CUMaterialItems if q != self]
-            self._CompatibleUnits._CUMaterialItems = filtered
+            p._CUMaterialItems = filtered
+        self._CompatibleUnits = []
         for r in value:
             if self not in r._CUMaterialItems:
                 r._CUMaterialItems.append(self)
-        self._CompatibleUnits = value
+            if r not in self._CompatibleUnits:
+                self._CompatibleUnits.append(r)
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CUWorkEquipmentItem.py b/CIM15/IEC61970/Informative/InfWork/CUWorkEquipmentItem.py
index 6ef13b4..05ed762 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUWorkEquipmentItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUWorkEquipmentItem.py
@@ -80,11 +80,13 @@ class CUWorkEquipmentItem(IdentifiedObject):
     def setCompatibleUnits(self, value):
         for p in self._CompatibleUnits:
             filtered = [q for q in p.CUWorkEquipmentItems if q != self]
-            self._CompatibleUnits._CUWorkEquipmentItems = filtered
+            p._CUWorkEquipmentItems = filtered
+        self._CompatibleUnits = []
         for r in value:
             if self not in r._CUWorkEquipmentItems:
                 r._CUWorkEquipmentItems.append(self)
-        self._CompatibleUnits = value
+            if r not in self._CompatibleUnits:
+                self._CompatibleUnits.append(r)
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Capability.py b/CIM15/IEC61970/Informative/InfWork/Capability.py
index f62207f..5e71df1 100644
--- a/CIM15/IEC61970/Informative/InfWork/Capability.py
+++ b/CIM15/IEC61970/Informative/InfWork/Capability.py
@@ -86,11 +86,13 @@ class Capability(IdentifiedObject):
     def setWorkTasks(self, value):
         for p in self._WorkTasks:
             filtered = [q for q in p.Capabilities if q != self]
-            self._WorkTasks._Capabilities = filtered
+            p._Capabilities = filtered
+        self._WorkTasks = []
         for r in value:
             if self not in r._Capabilities:
                 r._Capabilities.append(self)
-        self._WorkTasks = value
+            if r not in self._WorkTasks:
+                self._WorkTasks.append(r)
 
     WorkTasks = property(getWorkTasks, setWorkTasks)
 
@@ -115,11 +117,13 @@ class Capability(IdentifiedObject):
     def setCrafts(self, value):
         for p in self._Crafts:
             filtered = [q for q in p.Capabilities if q != self]
-            self._Crafts._Capabilities = filtered
+            p._Capabilities = filtered
+        self._Crafts = []
         for r in value:
             if self not in r._Capabilities:
                 r._Capabilities.append(self)
-        self._Crafts = value
+            if r not in self._Crafts:
+                self._Crafts.append(r)
 
     Crafts = property(getCrafts, setCrafts)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CompatibleUnit.py b/CIM15/IEC61970/Informative/InfWork/CompatibleUnit.py
index 83e08d0..965edcb 100644
--- a/CIM15/IEC61970/Informative/InfWork/CompatibleUnit.py
+++ b/CIM15/IEC61970/Informative/InfWork/CompatibleUnit.py
@@ -96,11 +96,13 @@ class CompatibleUnit(Document):
     def setCUWorkEquipmentItems(self, value):
         for p in self._CUWorkEquipmentItems:
             filtered = [q for q in p.CompatibleUnits if q != self]
-            self._CUWorkEquipmentItems._CompatibleUnits = filtered
+            p._CompatibleUnits = filtered
+        self._CUWorkEquipmentItems = []
         for r in value:
             if self not in r._CompatibleUnits:
                 r._CompatibleUnits.append(self)
-        self._CUWorkEquipmentItems = value
+            if r not in self._CUWorkEquipmentItems:
+                self._CUWorkEquipmentItems.append(r)
 
     CUWorkEquipmentItems = property(getCUWorkEquipmentItems, setCUWorkEquipmentItems)
 
@@ -123,11 +125,13 @@ class CompatibleUnit(Document):
     def setDesignLocationCUs(self, value):
         for p in self._DesignLocationCUs:
             filtered = [q for q in p.CompatibleUnits if q != self]
-            self._DesignLocationCUs._CompatibleUnits = filtered
+            p._CompatibleUnits = filtered
+        self._DesignLocationCUs = []
         for r in value:
             if self not in r._CompatibleUnits:
                 r._CompatibleUnits.append(self)
-        self._DesignLocationCUs = value
+            if r not in self._DesignLocationCUs:
+                self._DesignLocationCUs.append(r)
 
     DesignLocationCUs = property(getDesignLocationCUs, setDesignLocationCUs)
 
@@ -166,11 +170,13 @@ class CompatibleUnit(Document):
     def setCUAssets(self, value):
         for p in self._CUAssets:
             filtered = [q for q in p.CompatibleUnits if q != self]
-            self._CUAssets._CompatibleUnits = filtered
+            p._CompatibleUnits = filtered
+        self._CUAssets = []
         for r in value:
             if self not in r._CompatibleUnits:
                 r._CompatibleUnits.append(self)
-        self._CUAssets = value
+            if r not in self._CUAssets:
+                self._CUAssets.append(r)
 
     CUAssets = property(getCUAssets, setCUAssets)
 
@@ -241,11 +247,13 @@ class CompatibleUnit(Document):
     def setProcedures(self, value):
         for p in self._Procedures:
             filtered = [q for q in p.CompatibleUnits if q != self]
-            self._Procedures._CompatibleUnits = filtered
+            p._CompatibleUnits = filtered
+        self._Procedures = []
         for r in value:
             if self not in r._CompatibleUnits:
                 r._CompatibleUnits.append(self)
-        self._Procedures = value
+            if r not in self._Procedures:
+                self._Procedures.append(r)
 
     Procedures = property(getProcedures, setProcedures)
 
@@ -268,11 +276,13 @@ class CompatibleUnit(Document):
     def setCUContractorItems(self, value):
         for p in self._CUContractorItems:
             filtered = [q for q in p.CompatibleUnits if q != self]
-            self._CUContractorItems._CompatibleUnits = filtered
+            p._CompatibleUnits = filtered
+        self._CUContractorItems = []
         for r in value:
             if self not in r._CompatibleUnits:
                 r._CompatibleUnits.append(self)
-        self._CUContractorItems = value
+            if r not in self._CUContractorItems:
+                self._CUContractorItems.append(r)
 
     CUContractorItems = property(getCUContractorItems, setCUContractorItems)
 
@@ -295,11 +305,13 @@ class CompatibleUnit(Document):
     def setCUMaterialItems(self, value):
         for p in self._CUMaterialItems:
             filtered = [q for q in p.CompatibleUnits if q != self]
-            self._CUMaterialItems._CompatibleUnits = filtered
+            p._CompatibleUnits = filtered
+        self._CUMaterialItems = []
         for r in value:
             if self not in r._CompatibleUnits:
                 r._CompatibleUnits.append(self)
-        self._CUMaterialItems = value
+            if r not in self._CUMaterialItems:
+                self._CUMaterialItems.append(r)
 
     CUMaterialItems = property(getCUMaterialItems, setCUMaterialItems)
 
@@ -322,11 +334,13 @@ class CompatibleUnit(Document):
     def setCULaborItems(self, value):
         for p in self._CULaborItems:
             filtered = [q for q in p.CompatibleUnits if q != self]
-            self._CULaborItems._CompatibleUnits = filtered
+            p._CompatibleUnits = filtered
+        self._CULaborItems = []
         for r in value:
             if self not in r._CompatibleUnits:
                 r._CompatibleUnits.append(self)
-        self._CULaborItems = value
+            if r not in self._CULaborItems:
+                self._CULaborItems.append(r)
 
     CULaborItems = property(getCULaborItems, setCULaborItems)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/ConditionFactor.py b/CIM15/IEC61970/Informative/InfWork/ConditionFactor.py
index 0286c0b..b79e87b 100644
--- a/CIM15/IEC61970/Informative/InfWork/ConditionFactor.py
+++ b/CIM15/IEC61970/Informative/InfWork/ConditionFactor.py
@@ -67,11 +67,13 @@ class ConditionFactor(IdentifiedObject):
     def setDesigns(self, value):
         for p in self._Designs:
             filtered = [q for q in p.ConditionFactors if q != self]
-            self._Designs._ConditionFactors = filtered
+            p._ConditionFactors = filtered
+        self._Designs = []
         for r in value:
             if self not in r._ConditionFactors:
                 r._ConditionFactors.append(self)
-        self._Designs = value
+            if r not in self._Designs:
+                self._Designs.append(r)
 
     Designs = property(getDesigns, setDesigns)
 
@@ -94,11 +96,13 @@ class ConditionFactor(IdentifiedObject):
     def setDesignLocations(self, value):
         for p in self._DesignLocations:
             filtered = [q for q in p.ConditionFactors if q != self]
-            self._DesignLocations._ConditionFactors = filtered
+            p._ConditionFactors = filtered
+        self._DesignLocations = []
         for r in value:
             if self not in r._ConditionFactors:
                 r._ConditionFactors.append(self)
-        self._DesignLocations = value
+            if r not in self._DesignLocations:
+                self._DesignLocations.append(r)
 
     DesignLocations = property(getDesignLocations, setDesignLocations)
 
@@ -123,11 +127,13 @@ class ConditionFactor(IdentifiedObject):
     def setDesignLocationCUs(self, value):
         for p in self._DesignLocationCUs:
             filtered = [q for q in p.ConditionFactors if q != self]
-            self._DesignLocationCUs._ConditionFactors = filtered
+            p._ConditionFactors = filtered
+        self._DesignLocationCUs = []
         for r in value:
             if self not in r._ConditionFactors:
                 r._ConditionFactors.append(self)
-        self._DesignLocationCUs = value
+            if r not in self._DesignLocationCUs:
+                self._DesignLocationCUs.append(r)
 
     DesignLocationCUs = property(getDesignLocationCUs, setDesignLocationCUs)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/ContractorItem.py b/CIM15/IEC61970/Informative/InfWork/ContractorItem.py
index 9c0e8d4..e48145d 100644
--- a/CIM15/IEC61970/Informative/InfWork/ContractorItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/ContractorItem.py
@@ -87,11 +87,13 @@ class ContractorItem(IdentifiedObject):
     def setErpPayables(self, value):
         for p in self._ErpPayables:
             filtered = [q for q in p.ContractorItems if q != self]
-            self._ErpPayables._ContractorItems = filtered
+            p._ContractorItems = filtered
+        self._ErpPayables = []
         for r in value:
             if self not in r._ContractorItems:
                 r._ContractorItems.append(self)
-        self._ErpPayables = value
+            if r not in self._ErpPayables:
+                self._ErpPayables.append(r)
 
     ErpPayables = property(getErpPayables, setErpPayables)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CostType.py b/CIM15/IEC61970/Informative/InfWork/CostType.py
index b1aff68..c58faf0 100644
--- a/CIM15/IEC61970/Informative/InfWork/CostType.py
+++ b/CIM15/IEC61970/Informative/InfWork/CostType.py
@@ -83,11 +83,13 @@ class CostType(IdentifiedObject):
     def setErpJournalEntries(self, value):
         for p in self._ErpJournalEntries:
             filtered = [q for q in p.CostTypes if q != self]
-            self._ErpJournalEntries._CostTypes = filtered
+            p._CostTypes = filtered
+        self._ErpJournalEntries = []
         for r in value:
             if self not in r._CostTypes:
                 r._CostTypes.append(self)
-        self._ErpJournalEntries = value
+            if r not in self._ErpJournalEntries:
+                self._ErpJournalEntries.append(r)
 
     ErpJournalEntries = property(getErpJournalEntries, setErpJournalEntries)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Crew.py b/CIM15/IEC61970/Informative/InfWork/Crew.py
index ec9a3ac..1144dbf 100644
--- a/CIM15/IEC61970/Informative/InfWork/Crew.py
+++ b/CIM15/IEC61970/Informative/InfWork/Crew.py
@@ -122,11 +122,13 @@ class Crew(IdentifiedObject):
     def setSwitchingSchedules(self, value):
         for p in self._SwitchingSchedules:
             filtered = [q for q in p.Crews if q != self]
-            self._SwitchingSchedules._Crews = filtered
+            p._Crews = filtered
+        self._SwitchingSchedules = []
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
-        self._SwitchingSchedules = value
+            if r not in self._SwitchingSchedules:
+                self._SwitchingSchedules.append(r)
 
     SwitchingSchedules = property(getSwitchingSchedules, setSwitchingSchedules)
 
@@ -187,11 +189,13 @@ class Crew(IdentifiedObject):
     def setCrewMembers(self, value):
         for p in self._CrewMembers:
             filtered = [q for q in p.Crews if q != self]
-            self._CrewMembers._Crews = filtered
+            p._Crews = filtered
+        self._CrewMembers = []
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
-        self._CrewMembers = value
+            if r not in self._CrewMembers:
+                self._CrewMembers.append(r)
 
     CrewMembers = property(getCrewMembers, setCrewMembers)
 
@@ -214,11 +218,13 @@ class Crew(IdentifiedObject):
     def setOutageSteps(self, value):
         for p in self._OutageSteps:
             filtered = [q for q in p.Crews if q != self]
-            self._OutageSteps._Crews = filtered
+            p._Crews = filtered
+        self._OutageSteps = []
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
-        self._OutageSteps = value
+            if r not in self._OutageSteps:
+                self._OutageSteps.append(r)
 
     OutageSteps = property(getOutageSteps, setOutageSteps)
 
@@ -263,11 +269,13 @@ class Crew(IdentifiedObject):
     def setAssignments(self, value):
         for p in self._Assignments:
             filtered = [q for q in p.Crews if q != self]
-            self._Assignments._Crews = filtered
+            p._Crews = filtered
+        self._Assignments = []
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
-        self._Assignments = value
+            if r not in self._Assignments:
+                self._Assignments.append(r)
 
     Assignments = property(getAssignments, setAssignments)
 
@@ -290,11 +298,13 @@ class Crew(IdentifiedObject):
     def setLocations(self, value):
         for p in self._Locations:
             filtered = [q for q in p.Crews if q != self]
-            self._Locations._Crews = filtered
+            p._Crews = filtered
+        self._Locations = []
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
-        self._Locations = value
+            if r not in self._Locations:
+                self._Locations.append(r)
 
     Locations = property(getLocations, setLocations)
 
@@ -318,11 +328,13 @@ class Crew(IdentifiedObject):
     def setWorkTasks(self, value):
         for p in self._WorkTasks:
             filtered = [q for q in p.Crews if q != self]
-            self._WorkTasks._Crews = filtered
+            p._Crews = filtered
+        self._WorkTasks = []
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
-        self._WorkTasks = value
+            if r not in self._WorkTasks:
+                self._WorkTasks.append(r)
 
     WorkTasks = property(getWorkTasks, setWorkTasks)
 
@@ -345,11 +357,13 @@ class Crew(IdentifiedObject):
     def setOrganisations(self, value):
         for p in self._Organisations:
             filtered = [q for q in p.Crews if q != self]
-            self._Organisations._Crews = filtered
+            p._Crews = filtered
+        self._Organisations = []
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
-        self._Organisations = value
+            if r not in self._Organisations:
+                self._Organisations.append(r)
 
     Organisations = property(getOrganisations, setOrganisations)
 
@@ -372,11 +386,13 @@ class Crew(IdentifiedObject):
     def setShiftPatterns(self, value):
         for p in self._ShiftPatterns:
             filtered = [q for q in p.Crews if q != self]
-            self._ShiftPatterns._Crews = filtered
+            p._Crews = filtered
+        self._ShiftPatterns = []
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
-        self._ShiftPatterns = value
+            if r not in self._ShiftPatterns:
+                self._ShiftPatterns.append(r)
 
     ShiftPatterns = property(getShiftPatterns, setShiftPatterns)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Design.py b/CIM15/IEC61970/Informative/InfWork/Design.py
index 5717888..c03dae1 100644
--- a/CIM15/IEC61970/Informative/InfWork/Design.py
+++ b/CIM15/IEC61970/Informative/InfWork/Design.py
@@ -88,11 +88,13 @@ class Design(Document):
     def setDesignLocations(self, value):
         for p in self._DesignLocations:
             filtered = [q for q in p.Designs if q != self]
-            self._DesignLocations._Designs = filtered
+            p._Designs = filtered
+        self._DesignLocations = []
         for r in value:
             if self not in r._Designs:
                 r._Designs.append(self)
-        self._DesignLocations = value
+            if r not in self._DesignLocations:
+                self._DesignLocations.append(r)
 
     DesignLocations = property(getDesignLocations, setDesignLocations)
 
@@ -136,11 +138,13 @@ class Design(Document):
     def setConditionFactors(self, value):
         for p in self._ConditionFactors:
             filtered = [q for q in p.Designs if q != self]
-            self._ConditionFactors._Designs = filtered
+            p._Designs = filtered
+        self._ConditionFactors = []
         for r in value:
             if self not in r._Designs:
                 r._Designs.append(self)
-        self._ConditionFactors = value
+            if r not in self._ConditionFactors:
+                self._ConditionFactors.append(r)
 
     ConditionFactors = property(getConditionFactors, setConditionFactors)
 
@@ -221,11 +225,13 @@ class Design(Document):
     def setDesignLocationsCUs(self, value):
         for p in self._DesignLocationsCUs:
             filtered = [q for q in p.Designs if q != self]
-            self._DesignLocationsCUs._Designs = filtered
+            p._Designs = filtered
+        self._DesignLocationsCUs = []
         for r in value:
             if self not in r._Designs:
                 r._Designs.append(self)
-        self._DesignLocationsCUs = value
+            if r not in self._DesignLocationsCUs:
+                self._DesignLocationsCUs.append(r)
 
     DesignLocationsCUs = property(getDesignLocationsCUs, setDesignLocationsCUs)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/DesignLocation.py b/CIM15/IEC61970/Informative/InfWork/DesignLocation.py
index e8d89e4..e459cb4 100644
--- a/CIM15/IEC61970/Informative/InfWork/DesignLocation.py
+++ b/CIM15/IEC61970/Informative/InfWork/DesignLocation.py
@@ -106,11 +106,13 @@ class DesignLocation(IdentifiedObject):
     def setDesigns(self, value):
         for p in self._Designs:
             filtered = [q for q in p.DesignLocations if q != self]
-            self._Designs._DesignLocations = filtered
+            p._DesignLocations = filtered
+        self._Designs = []
         for r in value:
             if self not in r._DesignLocations:
                 r._DesignLocations.append(self)
-        self._Designs = value
+            if r not in self._Designs:
+                self._Designs.append(r)
 
     Designs = property(getDesigns, setDesigns)
 
@@ -154,11 +156,13 @@ class DesignLocation(IdentifiedObject):
     def setWorkLocations(self, value):
         for p in self._WorkLocations:
             filtered = [q for q in p.DesignLocations if q != self]
-            self._WorkLocations._DesignLocations = filtered
+            p._DesignLocations = filtered
+        self._WorkLocations = []
         for r in value:
             if self not in r._DesignLocations:
                 r._DesignLocations.append(self)
-        self._WorkLocations = value
+            if r not in self._WorkLocations:
+                self._WorkLocations.append(r)
 
     WorkLocations = property(getWorkLocations, setWorkLocations)
 
@@ -181,11 +185,13 @@ class DesignLocation(IdentifiedObject):
     def setDiagrams(self, value):
         for p in self._Diagrams:
             filtered = [q for q in p.DesignLocations if q != self]
-            self._Diagrams._DesignLocations = filtered
+            p._DesignLocations = filtered
+        self._Diagrams = []
         for r in value:
             if self not in r._DesignLocations:
                 r._DesignLocations.append(self)
-        self._Diagrams = value
+            if r not in self._Diagrams:
+                self._Diagrams.append(r)
 
     Diagrams = property(getDiagrams, setDiagrams)
 
@@ -250,11 +256,13 @@ class DesignLocation(IdentifiedObject):
     def setConditionFactors(self, value):
         for p in self._ConditionFactors:
             filtered = [q for q in p.DesignLocations if q != self]
-            self._ConditionFactors._DesignLocations = filtered
+            p._DesignLocations = filtered
+        self._ConditionFactors = []
         for r in value:
             if self not in r._DesignLocations:
                 r._DesignLocations.append(self)
-        self._ConditionFactors = value
+            if r not in self._ConditionFactors:
+                self._ConditionFactors.append(r)
 
     ConditionFactors = property(getConditionFactors, setConditionFactors)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/DesignLocationCU.py b/CIM15/IEC61970/Informative/InfWork/DesignLocationCU.py
index 7bb9b50..f477d66 100644
--- a/CIM15/IEC61970/Informative/InfWork/DesignLocationCU.py
+++ b/CIM15/IEC61970/Informative/InfWork/DesignLocationCU.py
@@ -95,11 +95,13 @@ class DesignLocationCU(IdentifiedObject):
     def setConditionFactors(self, value):
         for p in self._ConditionFactors:
             filtered = [q for q in p.DesignLocationCUs if q != self]
-            self._ConditionFactors._DesignLocationCUs = filtered
+            p._DesignLocationCUs = filtered
+        self._ConditionFactors = []
         for r in value:
             if self not in r._DesignLocationCUs:
                 r._DesignLocationCUs.append(self)
-        self._ConditionFactors = value
+            if r not in self._ConditionFactors:
+                self._ConditionFactors.append(r)
 
     ConditionFactors = property(getConditionFactors, setConditionFactors)
 
@@ -122,11 +124,13 @@ class DesignLocationCU(IdentifiedObject):
     def setCompatibleUnits(self, value):
         for p in self._CompatibleUnits:
             filtered = [q for q in p.DesignLocationCUs if q != self]
-            self._CompatibleUnits._DesignLocationCUs = filtered
+            p._DesignLocationCUs = filtered
+        self._CompatibleUnits = []
         for r in value:
             if self not in r._DesignLocationCUs:
                 r._DesignLocationCUs.append(self)
-        self._CompatibleUnits = value
+            if r not in self._CompatibleUnits:
+                self._CompatibleUnits.append(r)
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
@@ -149,11 +153,13 @@ class DesignLocationCU(IdentifiedObject):
     def setWorkTasks(self, value):
         for p in self._WorkTasks:
             filtered = [q for q in p.DesignLocationCUs if q != self]
-            self._WorkTasks._DesignLocationCUs = filtered
+            p._DesignLocationCUs = filtered
+        self._WorkTasks = []
         for r in value:
             if self not in r._DesignLocationCUs:
                 r._DesignLocationCUs.append(self)
-        self._WorkTasks = value
+            if r not in self._WorkTasks:
+                self._WorkTasks.append(r)
 
     WorkTasks = property(getWorkTasks, setWorkTasks)
 
@@ -176,11 +182,13 @@ class DesignLocationCU(IdentifiedObject):
     def setDesigns(self, value):
         for p in self._Designs:
             filtered = [q for q in p.DesignLocationsCUs if q != self]
-            self._Designs._DesignLocationsCUs = filtered
+            p._DesignLocationsCUs = filtered
+        self._Designs = []
         for r in value:
             if self not in r._DesignLocationsCUs:
                 r._DesignLocationsCUs.append(self)
-        self._Designs = value
+            if r not in self._Designs:
+                self._Designs.append(r)
 
     Designs = property(getDesigns, setDesigns)
 
@@ -203,11 +211,13 @@ class DesignLocationCU(IdentifiedObject):
     def setCUGroups(self, value):
         for p in self._CUGroups:
             filtered = [q for q in p.DesignLocationCUs if q != self]
-            self._CUGroups._DesignLocationCUs = filtered
+            p._DesignLocationCUs = filtered
+        self._CUGroups = []
         for r in value:
             if self not in r._DesignLocationCUs:
                 r._DesignLocationCUs.append(self)
-        self._CUGroups = value
+            if r not in self._CUGroups:
+                self._CUGroups.append(r)
 
     CUGroups = property(getCUGroups, setCUGroups)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/LaborItem.py b/CIM15/IEC61970/Informative/InfWork/LaborItem.py
index 6bcac16..b4a0217 100644
--- a/CIM15/IEC61970/Informative/InfWork/LaborItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/LaborItem.py
@@ -75,11 +75,13 @@ class LaborItem(IdentifiedObject):
     def setErpPersons(self, value):
         for p in self._ErpPersons:
             filtered = [q for q in p.LaborItems if q != self]
-            self._ErpPersons._LaborItems = filtered
+            p._LaborItems = filtered
+        self._ErpPersons = []
         for r in value:
             if self not in r._LaborItems:
                 r._LaborItems.append(self)
-        self._ErpPersons = value
+            if r not in self._ErpPersons:
+                self._ErpPersons.append(r)
 
     ErpPersons = property(getErpPersons, setErpPersons)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/MaterialItem.py b/CIM15/IEC61970/Informative/InfWork/MaterialItem.py
index 8132126..978a334 100644
--- a/CIM15/IEC61970/Informative/InfWork/MaterialItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/MaterialItem.py
@@ -170,11 +170,13 @@ class MaterialItem(IdentifiedObject):
     def setErpRecDelvLineItems(self, value):
         for p in self._ErpRecDelvLineItems:
             filtered = [q for q in p.MaterialItems if q != self]
-            self._ErpRecDelvLineItems._MaterialItems = filtered
+            p._MaterialItems = filtered
+        self._ErpRecDelvLineItems = []
         for r in value:
             if self not in r._MaterialItems:
                 r._MaterialItems.append(self)
-        self._ErpRecDelvLineItems = value
+            if r not in self._ErpRecDelvLineItems:
+                self._ErpRecDelvLineItems.append(r)
 
     ErpRecDelvLineItems = property(getErpRecDelvLineItems, setErpRecDelvLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Project.py b/CIM15/IEC61970/Informative/InfWork/Project.py
index cbfcde2..013b807 100644
--- a/CIM15/IEC61970/Informative/InfWork/Project.py
+++ b/CIM15/IEC61970/Informative/InfWork/Project.py
@@ -125,11 +125,13 @@ class Project(Document):
     def setRequests(self, value):
         for p in self._Requests:
             filtered = [q for q in p.Projects if q != self]
-            self._Requests._Projects = filtered
+            p._Projects = filtered
+        self._Requests = []
         for r in value:
             if self not in r._Projects:
                 r._Projects.append(self)
-        self._Requests = value
+            if r not in self._Requests:
+                self._Requests.append(r)
 
     Requests = property(getRequests, setRequests)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py b/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py
index b855791..baea740 100644
--- a/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py
+++ b/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py
@@ -94,11 +94,13 @@ class PropertyUnit(IdentifiedObject):
     def setCUMaterialItems(self, value):
         for p in self._CUMaterialItems:
             filtered = [q for q in p.PropertyUnits if q != self]
-            self._CUMaterialItems._PropertyUnits = filtered
+            p._PropertyUnits = filtered
+        self._CUMaterialItems = []
         for r in value:
             if self not in r._PropertyUnits:
                 r._PropertyUnits.append(self)
-        self._CUMaterialItems = value
+            if r not in self._CUMaterialItems:
+                self._CUMaterialItems.append(r)
 
     CUMaterialItems = property(getCUMaterialItems, setCUMaterialItems)
 
@@ -121,11 +123,13 @@ class PropertyUnit(IdentifiedObject):
     def setWorkCostDetails(self, value):
         for p in self._WorkCostDetails:
             filtered = [q for q in p.PropertyUnits if q != self]
-            self._WorkCostDetails._PropertyUnits = filtered
+            p._PropertyUnits = filtered
+        self._WorkCostDetails = []
         for r in value:
             if self not in r._PropertyUnits:
                 r._PropertyUnits.append(self)
-        self._WorkCostDetails = value
+            if r not in self._WorkCostDetails:
+                self._WorkCostDetails.append(r)
 
     WorkCostDetails = property(getWorkCostDetails, setWorkCostDetails)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/QualificationRequirement.py b/CIM15/IEC61970/Informative/InfWork/QualificationRequirement.py
index 0e538af..ace76f3 100644
--- a/CIM15/IEC61970/Informative/InfWork/QualificationRequirement.py
+++ b/CIM15/IEC61970/Informative/InfWork/QualificationRequirement.py
@@ -64,11 +64,13 @@ class QualificationRequirement(IdentifiedObject):
     def setWorkTasks(self, value):
         for p in self._WorkTasks:
             filtered = [q for q in p.QualificationRequirements if q != self]
-            self._WorkTasks._QualificationRequirements = filtered
+            p._QualificationRequirements = filtered
+        self._WorkTasks = []
         for r in value:
             if self not in r._QualificationRequirements:
                 r._QualificationRequirements.append(self)
-        self._WorkTasks = value
+            if r not in self._WorkTasks:
+                self._WorkTasks.append(r)
 
     WorkTasks = property(getWorkTasks, setWorkTasks)
 
@@ -91,11 +93,13 @@ class QualificationRequirement(IdentifiedObject):
     def setSkills(self, value):
         for p in self._Skills:
             filtered = [q for q in p.QualificationRequirements if q != self]
-            self._Skills._QualificationRequirements = filtered
+            p._QualificationRequirements = filtered
+        self._Skills = []
         for r in value:
             if self not in r._QualificationRequirements:
                 r._QualificationRequirements.append(self)
-        self._Skills = value
+            if r not in self._Skills:
+                self._Skills.append(r)
 
     Skills = property(getSkills, setSkills)
 
@@ -118,11 +122,13 @@ class QualificationRequirement(IdentifiedObject):
     def setCULaborItems(self, value):
         for p in self._CULaborItems:
             filtered = [q for q in p.QualificationRequirements if q != self]
-            self._CULaborItems._QualificationRequirements = filtered
+            p._QualificationRequirements = filtered
+        self._CULaborItems = []
         for r in value:
             if self not in r._QualificationRequirements:
                 r._QualificationRequirements.append(self)
-        self._CULaborItems = value
+            if r not in self._CULaborItems:
+                self._CULaborItems.append(r)
 
     CULaborItems = property(getCULaborItems, setCULaborItems)
 
@@ -145,11 +151,13 @@ class QualificationRequirement(IdentifiedObject):
     def setSpecifications(self, value):
         for p in self._Specifications:
             filtered = [q for q in p.QualificationRequirements if q != self]
-            self._Specifications._QualificationRequirements = filtered
+            p._QualificationRequirements = filtered
+        self._Specifications = []
         for r in value:
             if self not in r._QualificationRequirements:
                 r._QualificationRequirements.append(self)
-        self._Specifications = value
+            if r not in self._Specifications:
+                self._Specifications.append(r)
 
     Specifications = property(getSpecifications, setSpecifications)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Request.py b/CIM15/IEC61970/Informative/InfWork/Request.py
index 926a485..7d3179f 100644
--- a/CIM15/IEC61970/Informative/InfWork/Request.py
+++ b/CIM15/IEC61970/Informative/InfWork/Request.py
@@ -87,11 +87,13 @@ class Request(Document):
     def setProjects(self, value):
         for p in self._Projects:
             filtered = [q for q in p.Requests if q != self]
-            self._Projects._Requests = filtered
+            p._Requests = filtered
+        self._Projects = []
         for r in value:
             if self not in r._Requests:
                 r._Requests.append(self)
-        self._Projects = value
+            if r not in self._Projects:
+                self._Projects.append(r)
 
     Projects = property(getProjects, setProjects)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/ShiftPattern.py b/CIM15/IEC61970/Informative/InfWork/ShiftPattern.py
index cfe7bb9..f4d2cd2 100644
--- a/CIM15/IEC61970/Informative/InfWork/ShiftPattern.py
+++ b/CIM15/IEC61970/Informative/InfWork/ShiftPattern.py
@@ -62,11 +62,13 @@ class ShiftPattern(IdentifiedObject):
     def setCrews(self, value):
         for p in self._Crews:
             filtered = [q for q in p.ShiftPatterns if q != self]
-            self._Crews._ShiftPatterns = filtered
+            p._ShiftPatterns = filtered
+        self._Crews = []
         for r in value:
             if self not in r._ShiftPatterns:
                 r._ShiftPatterns.append(self)
-        self._Crews = value
+            if r not in self._Crews:
+                self._Crews.append(r)
 
     Crews = property(getCrews, setCrews)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py b/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py
index 7efc4cc..419d2f9 100644
--- a/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py
+++ b/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py
@@ -128,11 +128,13 @@ class WorkCostDetail(Document):
     def setWorks(self, value):
         for p in self._Works:
             filtered = [q for q in p.WorkCostDetails if q != self]
-            self._Works._WorkCostDetails = filtered
+            p._WorkCostDetails = filtered
+        self._Works = []
         for r in value:
             if self not in r._WorkCostDetails:
                 r._WorkCostDetails.append(self)
-        self._Works = value
+            if r not in self._Works:
+                self._Works.append(r)
 
     Works = property(getWorks, setWorks)
 
@@ -207,11 +209,13 @@ class WorkCostDetail(Document):
     def setPropertyUnits(self, value):
         for p in self._PropertyUnits:
             filtered = [q for q in p.WorkCostDetails if q != self]
-            self._PropertyUnits._WorkCostDetails = filtered
+            p._WorkCostDetails = filtered
+        self._PropertyUnits = []
         for r in value:
             if self not in r._WorkCostDetails:
                 r._WorkCostDetails.append(self)
-        self._PropertyUnits = value
+            if r not in self._PropertyUnits:
+                self._PropertyUnits.append(r)
 
     PropertyUnits = property(getPropertyUnits, setPropertyUnits)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/WorkLocation.py b/CIM15/IEC61970/Informative/InfWork/WorkLocation.py
index e19d77c..73ea31b 100644
--- a/CIM15/IEC61970/Informative/InfWork/WorkLocation.py
+++ b/CIM15/IEC61970/Informative/InfWork/WorkLocation.py
@@ -84,11 +84,13 @@ class WorkLocation(Location):
     def setDesignLocations(self, value):
         for p in self._DesignLocations:
             filtered = [q for q in p.WorkLocations if q != self]
-            self._DesignLocations._WorkLocations = filtered
+            p._WorkLocations = filtered
+        self._DesignLocations = []
         for r in value:
             if self not in r._WorkLocations:
                 r._WorkLocations.append(self)
-        self._DesignLocations = value
+            if r not in self._DesignLocations:
+                self._DesignLocations.append(r)
 
     DesignLocations = property(getDesignLocations, setDesignLocations)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/WorkTask.py b/CIM15/IEC61970/Informative/InfWork/WorkTask.py
index 38f799c..7b66c38 100644
--- a/CIM15/IEC61970/Informative/InfWork/WorkTask.py
+++ b/CIM15/IEC61970/Informative/InfWork/WorkTask.py
@@ -184,11 +184,13 @@ class WorkTask(Document):
     def setCrews(self, value):
         for p in self._Crews:
             filtered = [q for q in p.WorkTasks if q != self]
-            self._Crews._WorkTasks = filtered
+            p._WorkTasks = filtered
+        self._Crews = []
         for r in value:
             if self not in r._WorkTasks:
                 r._WorkTasks.append(self)
-        self._Crews = value
+            if r not in self._Crews:
+                self._Crews.append(r)
 
     Crews = property(getCrews, setCrews)
 
@@ -243,11 +245,13 @@ class WorkTask(Document):
     def setDesignLocationCUs(self, value):
         for p in self._DesignLocationCUs:
             filtered = [q for q in p.WorkTasks if q != self]
-            self._DesignLocationCUs._WorkTasks = filtered
+            p._WorkTasks = filtered
+        self._DesignLocationCUs = []
         for r in value:
             if self not in r._WorkTasks:
                 r._WorkTasks.append(self)
-        self._DesignLocationCUs = value
+            if r not in self._DesignLocationCUs:
+                self._DesignLocationCUs.append(r)
 
     DesignLocationCUs = property(getDesignLocationCUs, setDesignLocationCUs)
 
@@ -344,11 +348,13 @@ class WorkTask(Document):
     def setQualificationRequirements(self, value):
         for p in self._QualificationRequirements:
             filtered = [q for q in p.WorkTasks if q != self]
-            self._QualificationRequirements._WorkTasks = filtered
+            p._WorkTasks = filtered
+        self._QualificationRequirements = []
         for r in value:
             if self not in r._WorkTasks:
                 r._WorkTasks.append(self)
-        self._QualificationRequirements = value
+            if r not in self._QualificationRequirements:
+                self._QualificationRequirements.append(r)
 
     QualificationRequirements = property(getQualificationRequirements, setQualificationRequirements)
 
@@ -371,11 +377,13 @@ class WorkTask(Document):
     def setCapabilities(self, value):
         for p in self._Capabilities:
             filtered = [q for q in p.WorkTasks if q != self]
-            self._Capabilities._WorkTasks = filtered
+            p._WorkTasks = filtered
+        self._Capabilities = []
         for r in value:
             if self not in r._WorkTasks:
                 r._WorkTasks.append(self)
-        self._Capabilities = value
+            if r not in self._Capabilities:
+                self._Capabilities.append(r)
 
     Capabilities = property(getCapabilities, setCapabilities)
 
diff --git a/CIM15/IEC61970/Meas/Accumulator.py b/CIM15/IEC61970/Meas/Accumulator.py
index 7007cc6..3ff0fed 100644
--- a/CIM15/IEC61970/Meas/Accumulator.py
+++ b/CIM15/IEC61970/Meas/Accumulator.py
@@ -57,11 +57,13 @@ class Accumulator(Measurement):
     def setLimitSets(self, value):
         for p in self._LimitSets:
             filtered = [q for q in p.Measurements if q != self]
-            self._LimitSets._Measurements = filtered
+            p._Measurements = filtered
+        self._LimitSets = []
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
-        self._LimitSets = value
+            if r not in self._LimitSets:
+                self._LimitSets.append(r)
 
     LimitSets = property(getLimitSets, setLimitSets)
 
diff --git a/CIM15/IEC61970/Meas/AccumulatorLimitSet.py b/CIM15/IEC61970/Meas/AccumulatorLimitSet.py
index 30876d1..f83fb9b 100644
--- a/CIM15/IEC61970/Meas/AccumulatorLimitSet.py
+++ b/CIM15/IEC61970/Meas/AccumulatorLimitSet.py
@@ -75,11 +75,13 @@ class AccumulatorLimitSet(LimitSet):
     def setMeasurements(self, value):
         for p in self._Measurements:
             filtered = [q for q in p.LimitSets if q != self]
-            self._Measurements._LimitSets = filtered
+            p._LimitSets = filtered
+        self._Measurements = []
         for r in value:
             if self not in r._LimitSets:
                 r._LimitSets.append(self)
-        self._Measurements = value
+            if r not in self._Measurements:
+                self._Measurements.append(r)
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM15/IEC61970/Meas/Analog.py b/CIM15/IEC61970/Meas/Analog.py
index 65b0acb..959f941 100644
--- a/CIM15/IEC61970/Meas/Analog.py
+++ b/CIM15/IEC61970/Meas/Analog.py
@@ -73,11 +73,13 @@ class Analog(Measurement):
     def setLimitSets(self, value):
         for p in self._LimitSets:
             filtered = [q for q in p.Measurements if q != self]
-            self._LimitSets._Measurements = filtered
+            p._Measurements = filtered
+        self._LimitSets = []
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
-        self._LimitSets = value
+            if r not in self._LimitSets:
+                self._LimitSets.append(r)
 
     LimitSets = property(getLimitSets, setLimitSets)
 
diff --git a/CIM15/IEC61970/Meas/AnalogLimitSet.py b/CIM15/IEC61970/Meas/AnalogLimitSet.py
index fa5f7c6..86cb41c 100644
--- a/CIM15/IEC61970/Meas/AnalogLimitSet.py
+++ b/CIM15/IEC61970/Meas/AnalogLimitSet.py
@@ -75,11 +75,13 @@ class AnalogLimitSet(LimitSet):
     def setMeasurements(self, value):
         for p in self._Measurements:
             filtered = [q for q in p.LimitSets if q != self]
-            self._Measurements._LimitSets = filtered
+            p._LimitSets = filtered
+        self._Measurements = []
         for r in value:
             if self not in r._LimitSets:
                 r._LimitSets.append(self)
-        self._Measurements = value
+            if r not in self._Measurements:
+                self._Measurements.append(r)
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM15/IEC61970/Meas/Limit.py b/CIM15/IEC61970/Meas/Limit.py
index df4b09c..5b0cf9e 100644
--- a/CIM15/IEC61970/Meas/Limit.py
+++ b/CIM15/IEC61970/Meas/Limit.py
@@ -48,11 +48,13 @@ class Limit(IdentifiedObject):
     def setProcedures(self, value):
         for p in self._Procedures:
             filtered = [q for q in p.Limits if q != self]
-            self._Procedures._Limits = filtered
+            p._Limits = filtered
+        self._Procedures = []
         for r in value:
             if self not in r._Limits:
                 r._Limits.append(self)
-        self._Procedures = value
+            if r not in self._Procedures:
+                self._Procedures.append(r)
 
     Procedures = property(getProcedures, setProcedures)
 
diff --git a/CIM15/IEC61970/Meas/Measurement.py b/CIM15/IEC61970/Meas/Measurement.py
index 9870bfc..3ce3f23 100644
--- a/CIM15/IEC61970/Meas/Measurement.py
+++ b/CIM15/IEC61970/Meas/Measurement.py
@@ -114,11 +114,13 @@ class Measurement(IdentifiedObject):
     def setLocations(self, value):
         for p in self._Locations:
             filtered = [q for q in p.Measurements if q != self]
-            self._Locations._Measurements = filtered
+            p._Measurements = filtered
+        self._Locations = []
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
-        self._Locations = value
+            if r not in self._Locations:
+                self._Locations.append(r)
 
     Locations = property(getLocations, setLocations)
 
@@ -158,11 +160,13 @@ class Measurement(IdentifiedObject):
     def setDocuments(self, value):
         for p in self._Documents:
             filtered = [q for q in p.Measurements if q != self]
-            self._Documents._Measurements = filtered
+            p._Measurements = filtered
+        self._Documents = []
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
-        self._Documents = value
+            if r not in self._Documents:
+                self._Documents.append(r)
 
     Documents = property(getDocuments, setDocuments)
 
diff --git a/CIM15/IEC61970/Meas/MeasurementValue.py b/CIM15/IEC61970/Meas/MeasurementValue.py
index d189d5a..2a3e9a1 100644
--- a/CIM15/IEC61970/Meas/MeasurementValue.py
+++ b/CIM15/IEC61970/Meas/MeasurementValue.py
@@ -113,11 +113,13 @@ class MeasurementValue(IdentifiedObject):
     def setProcedureDataSets(self, value):
         for p in self._ProcedureDataSets:
             filtered = [q for q in p.MeasurementValues if q != self]
-            self._ProcedureDataSets._MeasurementValues = filtered
+            p._MeasurementValues = filtered
+        self._ProcedureDataSets = []
         for r in value:
             if self not in r._MeasurementValues:
                 r._MeasurementValues.append(self)
-        self._ProcedureDataSets = value
+            if r not in self._ProcedureDataSets:
+                self._ProcedureDataSets.append(r)
 
     ProcedureDataSets = property(getProcedureDataSets, setProcedureDataSets)
 
diff --git a/CIM15/IEC61970/Outage/SwitchingOperation.py b/CIM15/IEC61970/Outage/SwitchingOperation.py
index b3f5685..692c186 100644
--- a/CIM15/IEC61970/Outage/SwitchingOperation.py
+++ b/CIM15/IEC61970/Outage/SwitchingOperation.py
@@ -78,11 +78,13 @@ class SwitchingOperation(IdentifiedObject):
     def setSwitches(self, value):
         for p in self._Switches:
             filtered = [q for q in p.SwitchingOperations if q != self]
-            self._Switches._SwitchingOperations = filtered
+            p._SwitchingOperations = filtered
+        self._Switches = []
         for r in value:
             if self not in r._SwitchingOperations:
                 r._SwitchingOperations.append(self)
-        self._Switches = value
+            if r not in self._Switches:
+                self._Switches.append(r)
 
     Switches = property(getSwitches, setSwitches)
 
diff --git a/CIM15/IEC61970/Protection/ProtectionEquipment.py b/CIM15/IEC61970/Protection/ProtectionEquipment.py
index 6a28ad3..8970b00 100644
--- a/CIM15/IEC61970/Protection/ProtectionEquipment.py
+++ b/CIM15/IEC61970/Protection/ProtectionEquipment.py
@@ -77,11 +77,13 @@ class ProtectionEquipment(Equipment):
     def setConductingEquipments(self, value):
         for p in self._ConductingEquipments:
             filtered = [q for q in p.ProtectionEquipments if q != self]
-            self._ConductingEquipments._ProtectionEquipments = filtered
+            p._ProtectionEquipments = filtered
+        self._ConductingEquipments = []
         for r in value:
             if self not in r._ProtectionEquipments:
                 r._ProtectionEquipments.append(self)
-        self._ConductingEquipments = value
+            if r not in self._ConductingEquipments:
+                self._ConductingEquipments.append(r)
 
     ConductingEquipments = property(getConductingEquipments, setConductingEquipments)
 
@@ -105,11 +107,13 @@ class ProtectionEquipment(Equipment):
     def setProtectedSwitches(self, value):
         for p in self._ProtectedSwitches:
             filtered = [q for q in p.ProtectionEquipments if q != self]
-            self._ProtectedSwitches._ProtectionEquipments = filtered
+            p._ProtectionEquipments = filtered
+        self._ProtectedSwitches = []
         for r in value:
             if self not in r._ProtectionEquipments:
                 r._ProtectionEquipments.append(self)
-        self._ProtectedSwitches = value
+            if r not in self._ProtectedSwitches:
+                self._ProtectedSwitches.append(r)
 
     ProtectedSwitches = property(getProtectedSwitches, setProtectedSwitches)
 
diff --git a/CIM15/IEC61970/SCADA/CommunicationLink.py b/CIM15/IEC61970/SCADA/CommunicationLink.py
index 7c3d6ee..b1f1708 100644
--- a/CIM15/IEC61970/SCADA/CommunicationLink.py
+++ b/CIM15/IEC61970/SCADA/CommunicationLink.py
@@ -49,11 +49,13 @@ class CommunicationLink(PowerSystemResource):
     def setRemoteUnits(self, value):
         for p in self._RemoteUnits:
             filtered = [q for q in p.CommunicationLinks if q != self]
-            self._RemoteUnits._CommunicationLinks = filtered
+            p._CommunicationLinks = filtered
+        self._RemoteUnits = []
         for r in value:
             if self not in r._CommunicationLinks:
                 r._CommunicationLinks.append(self)
-        self._RemoteUnits = value
+            if r not in self._RemoteUnits:
+                self._RemoteUnits.append(r)
 
     RemoteUnits = property(getRemoteUnits, setRemoteUnits)
 
diff --git a/CIM15/IEC61970/SCADA/RemoteUnit.py b/CIM15/IEC61970/SCADA/RemoteUnit.py
index 45e39a7..7c2e0d7 100644
--- a/CIM15/IEC61970/SCADA/RemoteUnit.py
+++ b/CIM15/IEC61970/SCADA/RemoteUnit.py
@@ -79,11 +79,13 @@ class RemoteUnit(PowerSystemResource):
     def setCommunicationLinks(self, value):
         for p in self._CommunicationLinks:
             filtered = [q for q in p.RemoteUnits if q != self]
-            self._CommunicationLinks._RemoteUnits = filtered
+            p._RemoteUnits = filtered
+        self._CommunicationLinks = []
         for r in value:
             if self not in r._RemoteUnits:
                 r._RemoteUnits.append(self)
-        self._CommunicationLinks = value
+            if r not in self._CommunicationLinks:
+                self._CommunicationLinks.append(r)
 
     CommunicationLinks = property(getCommunicationLinks, setCommunicationLinks)
 
diff --git a/CIM15/IEC61970/Wires/ACLineSegment.py b/CIM15/IEC61970/Wires/ACLineSegment.py
index f2ad984..330b0f9 100644
--- a/CIM15/IEC61970/Wires/ACLineSegment.py
+++ b/CIM15/IEC61970/Wires/ACLineSegment.py
@@ -261,11 +261,13 @@ class ACLineSegment(Conductor):
     def setCurrentTemperatureCurves(self, value):
         for p in self._CurrentTemperatureCurves:
             filtered = [q for q in p.ACLineSegments if q != self]
-            self._CurrentTemperatureCurves._ACLineSegments = filtered
+            p._ACLineSegments = filtered
+        self._CurrentTemperatureCurves = []
         for r in value:
             if self not in r._ACLineSegments:
                 r._ACLineSegments.append(self)
-        self._CurrentTemperatureCurves = value
+            if r not in self._CurrentTemperatureCurves:
+                self._CurrentTemperatureCurves.append(r)
 
     CurrentTemperatureCurves = property(getCurrentTemperatureCurves, setCurrentTemperatureCurves)
 
diff --git a/CIM15/IEC61970/Wires/CurrentTemperatureCurve.py b/CIM15/IEC61970/Wires/CurrentTemperatureCurve.py
index 198e663..3f4421c 100644
--- a/CIM15/IEC61970/Wires/CurrentTemperatureCurve.py
+++ b/CIM15/IEC61970/Wires/CurrentTemperatureCurve.py
@@ -46,11 +46,13 @@ class CurrentTemperatureCurve(Curve):
     def setACLineSegments(self, value):
         for p in self._ACLineSegments:
             filtered = [q for q in p.CurrentTemperatureCurves if q != self]
-            self._ACLineSegments._CurrentTemperatureCurves = filtered
+            p._CurrentTemperatureCurves = filtered
+        self._ACLineSegments = []
         for r in value:
             if self not in r._CurrentTemperatureCurves:
                 r._CurrentTemperatureCurves.append(self)
-        self._ACLineSegments = value
+            if r not in self._ACLineSegments:
+                self._ACLineSegments.append(r)
 
     ACLineSegments = property(getACLineSegments, setACLineSegments)
 
diff --git a/CIM15/IEC61970/Wires/ProtectedSwitch.py b/CIM15/IEC61970/Wires/ProtectedSwitch.py
index a91f4bc..2ec7960 100644
--- a/CIM15/IEC61970/Wires/ProtectedSwitch.py
+++ b/CIM15/IEC61970/Wires/ProtectedSwitch.py
@@ -57,11 +57,13 @@ class ProtectedSwitch(Switch):
     def setProtectionEquipments(self, value):
         for p in self._ProtectionEquipments:
             filtered = [q for q in p.ProtectedSwitches if q != self]
-            self._ProtectionEquipments._ProtectedSwitches = filtered
+            p._ProtectedSwitches = filtered
+        self._ProtectionEquipments = []
         for r in value:
             if self not in r._ProtectedSwitches:
                 r._ProtectedSwitches.append(self)
-        self._ProtectionEquipments = value
+            if r not in self._ProtectionEquipments:
+                self._ProtectionEquipments.append(r)
 
     ProtectionEquipments = property(getProtectionEquipments, setProtectionEquipments)
 
diff --git a/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py b/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py
index b71bb7b..c736668 100644
--- a/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py
+++ b/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py
@@ -83,11 +83,13 @@ class ReactiveCapabilityCurve(Curve):
     def setSynchronousMachines(self, value):
         for p in self._SynchronousMachines:
             filtered = [q for q in p.ReactiveCapabilityCurves if q != self]
-            self._SynchronousMachines._ReactiveCapabilityCurves = filtered
+            p._ReactiveCapabilityCurves = filtered
+        self._SynchronousMachines = []
         for r in value:
             if self not in r._ReactiveCapabilityCurves:
                 r._ReactiveCapabilityCurves.append(self)
-        self._SynchronousMachines = value
+            if r not in self._SynchronousMachines:
+                self._SynchronousMachines.append(r)
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
diff --git a/CIM15/IEC61970/Wires/Switch.py b/CIM15/IEC61970/Wires/Switch.py
index f60431b..af98de9 100644
--- a/CIM15/IEC61970/Wires/Switch.py
+++ b/CIM15/IEC61970/Wires/Switch.py
@@ -89,11 +89,13 @@ class Switch(ConductingEquipment):
     def setSwitchingOperations(self, value):
         for p in self._SwitchingOperations:
             filtered = [q for q in p.Switches if q != self]
-            self._SwitchingOperations._Switches = filtered
+            p._Switches = filtered
+        self._SwitchingOperations = []
         for r in value:
             if self not in r._Switches:
                 r._Switches.append(self)
-        self._SwitchingOperations = value
+            if r not in self._SwitchingOperations:
+                self._SwitchingOperations.append(r)
 
     SwitchingOperations = property(getSwitchingOperations, setSwitchingOperations)
 
@@ -116,11 +118,13 @@ class Switch(ConductingEquipment):
     def setLoadMgmtFunctions(self, value):
         for p in self._LoadMgmtFunctions:
             filtered = [q for q in p.Switches if q != self]
-            self._LoadMgmtFunctions._Switches = filtered
+            p._Switches = filtered
+        self._LoadMgmtFunctions = []
         for r in value:
             if self not in r._Switches:
                 r._Switches.append(self)
-        self._LoadMgmtFunctions = value
+            if r not in self._LoadMgmtFunctions:
+                self._LoadMgmtFunctions.append(r)
 
     LoadMgmtFunctions = property(getLoadMgmtFunctions, setLoadMgmtFunctions)
 
@@ -143,11 +147,13 @@ class Switch(ConductingEquipment):
     def setConnectDisconnectFunctions(self, value):
         for p in self._ConnectDisconnectFunctions:
             filtered = [q for q in p.Switches if q != self]
-            self._ConnectDisconnectFunctions._Switches = filtered
+            p._Switches = filtered
+        self._ConnectDisconnectFunctions = []
         for r in value:
             if self not in r._Switches:
                 r._Switches.append(self)
-        self._ConnectDisconnectFunctions = value
+            if r not in self._ConnectDisconnectFunctions:
+                self._ConnectDisconnectFunctions.append(r)
 
     ConnectDisconnectFunctions = property(getConnectDisconnectFunctions, setConnectDisconnectFunctions)
 
diff --git a/CIM15/IEC61970/Wires/SynchronousMachine.py b/CIM15/IEC61970/Wires/SynchronousMachine.py
index a059a7f..38d2cc1 100644
--- a/CIM15/IEC61970/Wires/SynchronousMachine.py
+++ b/CIM15/IEC61970/Wires/SynchronousMachine.py
@@ -185,11 +185,13 @@ class SynchronousMachine(RegulatingCondEq):
     def setPrimeMovers(self, value):
         for p in self._PrimeMovers:
             filtered = [q for q in p.SynchronousMachines if q != self]
-            self._PrimeMovers._SynchronousMachines = filtered
+            p._SynchronousMachines = filtered
+        self._PrimeMovers = []
         for r in value:
             if self not in r._SynchronousMachines:
                 r._SynchronousMachines.append(self)
-        self._PrimeMovers = value
+            if r not in self._PrimeMovers:
+                self._PrimeMovers.append(r)
 
     PrimeMovers = property(getPrimeMovers, setPrimeMovers)
 
@@ -230,11 +232,13 @@ class SynchronousMachine(RegulatingCondEq):
     def setReactiveCapabilityCurves(self, value):
         for p in self._ReactiveCapabilityCurves:
             filtered = [q for q in p.SynchronousMachines if q != self]
-            self._ReactiveCapabilityCurves._SynchronousMachines = filtered
+            p._SynchronousMachines = filtered
+        self._ReactiveCapabilityCurves = []
         for r in value:
             if self not in r._SynchronousMachines:
                 r._SynchronousMachines.append(self)
-        self._ReactiveCapabilityCurves = value
+            if r not in self._ReactiveCapabilityCurves:
+                self._ReactiveCapabilityCurves.append(r)
 
     ReactiveCapabilityCurves = property(getReactiveCapabilityCurves, setReactiveCapabilityCurves)
 
diff --git a/CIM15/IEC61970/Wires/TransformerEnd.py b/CIM15/IEC61970/Wires/TransformerEnd.py
index bda7ae1..62a12ba 100644
--- a/CIM15/IEC61970/Wires/TransformerEnd.py
+++ b/CIM15/IEC61970/Wires/TransformerEnd.py
@@ -278,11 +278,13 @@ class TransformerEnd(IdentifiedObject):
     def setToMeshImpedance(self, value):
         for p in self._ToMeshImpedance:
             filtered = [q for q in p.ToTransformerEnd if q != self]
-            self._ToMeshImpedance._ToTransformerEnd = filtered
+            p._ToTransformerEnd = filtered
+        self._ToMeshImpedance = []
         for r in value:
             if self not in r._ToTransformerEnd:
                 r._ToTransformerEnd.append(self)
-        self._ToMeshImpedance = value
+            if r not in self._ToMeshImpedance:
+                self._ToMeshImpedance.append(r)
 
     ToMeshImpedance = property(getToMeshImpedance, setToMeshImpedance)
 
diff --git a/CIM15/IEC61970/Wires/TransformerMeshImpedance.py b/CIM15/IEC61970/Wires/TransformerMeshImpedance.py
index 6949792..7c28e9e 100644
--- a/CIM15/IEC61970/Wires/TransformerMeshImpedance.py
+++ b/CIM15/IEC61970/Wires/TransformerMeshImpedance.py
@@ -94,11 +94,13 @@ class TransformerMeshImpedance(IdentifiedObject):
     def setToTransformerEnd(self, value):
         for p in self._ToTransformerEnd:
             filtered = [q for q in p.ToMeshImpedance if q != self]
-            self._ToTransformerEnd._ToMeshImpedance = filtered
+            p._ToMeshImpedance = filtered
+        self._ToTransformerEnd = []
         for r in value:
             if self not in r._ToMeshImpedance:
                 r._ToMeshImpedance.append(self)
-        self._ToTransformerEnd = value
+            if r not in self._ToTransformerEnd:
+                self._ToTransformerEnd.append(r)
 
     ToTransformerEnd = property(getToTransformerEnd, setToTransformerEnd)
 
@@ -122,11 +124,13 @@ class TransformerMeshImpedance(IdentifiedObject):
     def setToTransformerEndInfo(self, value):
         for p in self._ToTransformerEndInfo:
             filtered = [q for q in p.ToMeshImpedance if q != self]
-            self._ToTransformerEndInfo._ToMeshImpedance = filtered
+            p._ToMeshImpedance = filtered
+        self._ToTransformerEndInfo = []
         for r in value:
             if self not in r._ToMeshImpedance:
                 r._ToMeshImpedance.append(self)
-        self._ToTransformerEndInfo = value
+            if r not in self._ToTransformerEndInfo:
+                self._ToTransformerEndInfo.append(r)
 
     ToTransformerEndInfo = property(getToTransformerEndInfo, setToTransformerEndInfo)
 
diff --git a/CIM15/IEC62325/MarketParticipant.py b/CIM15/IEC62325/MarketParticipant.py
index 5daecd4..899b8ab 100644
--- a/CIM15/IEC62325/MarketParticipant.py
+++ b/CIM15/IEC62325/MarketParticipant.py
@@ -47,11 +47,13 @@ class MarketParticipant(Organisation):
     def setMarketRoles(self, value):
         for p in self._MarketRoles:
             filtered = [q for q in p.MarketParticipants if q != self]
-            self._MarketRoles._MarketParticipants = filtered
+            p._MarketParticipants = filtered
+        self._MarketRoles = []
         for r in value:
             if self not in r._MarketParticipants:
                 r._MarketParticipants.append(self)
-        self._MarketRoles = value
+            if r not in self._MarketRoles:
+                self._MarketRoles.append(r)
 
     MarketRoles = property(getMarketRoles, setMarketRoles)
 
diff --git a/CIM15/IEC62325/MarketRole.py b/CIM15/IEC62325/MarketRole.py
index 3d09c69..ee085b8 100644
--- a/CIM15/IEC62325/MarketRole.py
+++ b/CIM15/IEC62325/MarketRole.py
@@ -58,11 +58,13 @@ class MarketRole(IdentifiedObject):
     def setMarketParticipants(self, value):
         for p in self._MarketParticipants:
             filtered = [q for q in p.MarketRoles if q != self]
-            self._MarketParticipants._MarketRoles = filtered
+            p._MarketRoles = filtered
+        self._MarketParticipants = []
         for r in value:
             if self not in r._MarketRoles:
                 r._MarketRoles.append(self)
-        self._MarketParticipants = value
+            if r not in self._MarketParticipants:
+                self._MarketParticipants.append(r)
 
     MarketParticipants = property(getMarketParticipants, setMarketParticipants)
 
-- 
2.43.0


From aa6c2957b4c658d8cb78b5d53e5b0fdf65f61c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:53 +0000
Subject: [PATCH 02/31] fix: adding an element to a many-to-many association
 twice listed it twice

The inverse side was guarded against duplicates, this side was not.
---
 .../IEC61968/AssetModels/OpenCircuitTest.py   |  3 ++-
 .../IEC61968/AssetModels/ShortCircuitTest.py  |  3 ++-
 .../IEC61968/AssetModels/ToWindingSpec.py     |  6 +++--
 .../IEC61968/AssetModels/OpenCircuitTest.py   |  3 ++-
 .../IEC61968/AssetModels/ShortCircuitTest.py  |  3 ++-
 .../IEC61968/AssetModels/ToWindingSpec.py     |  6 +++--
 .../IEC61968/AssetModels/OpenCircuitTest.py   |  3 ++-
 .../IEC61968/AssetModels/ShortCircuitTest.py  |  3 ++-
 .../IEC61968/AssetModels/ToWindingSpec.py     |  6 +++--
 .../Dynamics/IEC61968/Assets/AssetsAsset.py   |  3 ++-
 .../Customers/CustomersCustomerAgreement.py   |  3 ++-
 .../IEC61970/Core/CoreConductingEquipment.py  |  3 ++-
 .../Dynamics/IEC61970/Core/CoreEquipment.py   |  3 ++-
 .../IEC61970/Core/CorePowerSystemResource.py  |  9 ++++---
 .../Dynamics/IEC61970/Core/CorePsrList.py     |  3 ++-
 .../IEC61970/Core/CoreReportingGroup.py       |  3 ++-
 .../ProtectionProtectionEquipment.py          |  3 ++-
 CIM14/IEC61968/AssetModels/OpenCircuitTest.py |  3 ++-
 .../IEC61968/AssetModels/ShortCircuitTest.py  |  3 ++-
 CIM14/IEC61968/AssetModels/ToWindingSpec.py   |  6 +++--
 CIM14/IEC61968/Assets/Asset.py                | 12 ++++++---
 CIM14/IEC61968/Common/ActivityRecord.py       |  6 +++--
 CIM14/IEC61968/Common/Document.py             |  6 +++--
 CIM14/IEC61968/Common/Location.py             |  3 ++-
 CIM14/IEC61968/Common/UserAttribute.py        |  6 +++--
 CIM14/IEC61968/Customers/Customer.py          |  3 ++-
 CIM14/IEC61968/Customers/CustomerAgreement.py |  9 ++++---
 CIM14/IEC61968/Customers/PricingStructure.py  |  9 ++++---
 CIM14/IEC61968/Customers/ServiceLocation.py   |  3 ++-
 CIM14/IEC61968/Customers/Tariff.py            |  6 +++--
 .../LoadControl/ConnectDisconnectFunction.py  |  3 ++-
 CIM14/IEC61968/Metering/EndDeviceAsset.py     |  3 ++-
 CIM14/IEC61968/Metering/EndDeviceGroup.py     |  3 ++-
 CIM14/IEC61968/Metering/IntervalBlock.py      |  3 ++-
 CIM14/IEC61968/Metering/IntervalReading.py    |  3 ++-
 CIM14/IEC61968/Metering/MeterReading.py       |  3 ++-
 CIM14/IEC61968/Metering/Reading.py            |  3 ++-
 CIM14/IEC61968/Metering/SDPLocation.py        |  3 ++-
 .../IEC61968/Metering/ServiceDeliveryPoint.py |  6 +++--
 .../PaymentMetering/AuxiliaryAccount.py       |  3 ++-
 CIM14/IEC61968/PaymentMetering/Charge.py      |  9 ++++---
 .../ConsumptionTariffInterval.py              |  6 +++--
 .../PaymentMetering/MerchantAccount.py        |  3 ++-
 .../IEC61968/PaymentMetering/TariffProfile.py |  9 ++++---
 .../PaymentMetering/TimeTariffInterval.py     |  6 +++--
 CIM14/IEC61968/PaymentMetering/Transactor.py  |  3 ++-
 CIM14/IEC61968/Work/Work.py                   |  3 ++-
 CIM14/IEC61970/Core/ConductingEquipment.py    |  3 ++-
 CIM14/IEC61970/Core/Equipment.py              |  3 ++-
 CIM14/IEC61970/Core/PowerSystemResource.py    |  9 ++++---
 CIM14/IEC61970/Core/PsrList.py                |  3 ++-
 CIM14/IEC61970/Core/ReportingGroup.py         |  3 ++-
 .../IEC61970/Dynamics/BlockOutputReference.py |  3 ++-
 CIM14/IEC61970/Dynamics/CompositeModel.py     |  3 ++-
 .../IEC61970/Dynamics/Generators/GenEquiv.py  |  3 ++-
 CIM14/IEC61970/Dynamics/Generators/GenLoad.py |  3 ++-
 .../IEC61970/Dynamics/Loads/AggregateLoad.py  |  3 ++-
 CIM14/IEC61970/Dynamics/MetaBlockReference.py |  3 ++-
 CIM14/IEC61970/Dynamics/MetaBlockSignal.py    |  6 +++--
 .../Dynamics/Motors/MechanicalLoad.py         |  3 ++-
 CIM14/IEC61970/Dynamics/RotatingMachine.py    |  3 ++-
 CIM14/IEC61970/Dynamics/SlotReference.py      |  3 ++-
 .../Dynamics/TurbineGovernors/GovHydro1.py    |  3 ++-
 .../GenerationDynamics/PrimeMover.py          |  3 ++-
 .../GenerationDynamics/SteamSupply.py         |  3 ++-
 .../GenerationDynamics/SteamTurbine.py        |  3 ++-
 CIM14/IEC61970/Meas/Accumulator.py            |  3 ++-
 CIM14/IEC61970/Meas/AccumulatorLimitSet.py    |  3 ++-
 CIM14/IEC61970/Meas/Analog.py                 |  3 ++-
 CIM14/IEC61970/Meas/AnalogLimitSet.py         |  3 ++-
 CIM14/IEC61970/Meas/Measurement.py            |  6 +++--
 CIM14/IEC61970/Outage/SwitchingOperation.py   |  3 ++-
 .../Protection/ProtectionEquipment.py         |  3 ++-
 CIM14/IEC61970/SCADA/CommunicationLink.py     |  3 ++-
 CIM14/IEC61970/SCADA/RemoteUnit.py            |  3 ++-
 CIM14/IEC61970/Wires/EnergyConsumer.py        |  3 ++-
 .../IEC61970/Wires/ReactiveCapabilityCurve.py |  3 ++-
 CIM14/IEC61970/Wires/Switch.py                |  6 +++--
 CIM14/IEC61970/Wires/SynchronousMachine.py    | 15 +++++++----
 .../Balanced/IEC61970/Wires/TransformerEnd.py |  3 ++-
 .../Wires/TransformerMeshImpedance.py         |  3 ++-
 .../IEC61968/AssetModels/ShortCircuitTest.py  |  3 ++-
 .../AssetModels/TransformerEndInfo.py         |  6 +++--
 CIM15/IEC61968/Assets/Asset.py                | 27 ++++++++++++-------
 CIM15/IEC61968/Assets/AssetContainer.py       |  3 ++-
 CIM15/IEC61968/Common/ActivityRecord.py       | 12 ++++++---
 CIM15/IEC61968/Common/CoordinateSystem.py     |  3 ++-
 CIM15/IEC61968/Common/Document.py             | 15 +++++++----
 CIM15/IEC61968/Common/Location.py             | 21 ++++++++++-----
 CIM15/IEC61968/Common/Organisation.py         |  3 ++-
 CIM15/IEC61968/Common/UserAttribute.py        | 15 +++++++----
 CIM15/IEC61968/Customers/Customer.py          |  6 +++--
 CIM15/IEC61968/Customers/CustomerAgreement.py |  9 ++++---
 CIM15/IEC61968/Customers/PricingStructure.py  |  9 ++++---
 CIM15/IEC61968/Customers/ServiceLocation.py   |  3 ++-
 CIM15/IEC61968/Customers/Tariff.py            |  6 +++--
 .../LoadControl/ConnectDisconnectFunction.py  |  3 ++-
 CIM15/IEC61968/Metering/EndDevice.py          |  3 ++-
 CIM15/IEC61968/Metering/EndDeviceGroup.py     |  3 ++-
 CIM15/IEC61968/Metering/IntervalBlock.py      |  3 ++-
 CIM15/IEC61968/Metering/IntervalReading.py    |  3 ++-
 CIM15/IEC61968/Metering/MeterReading.py       |  3 ++-
 CIM15/IEC61968/Metering/Reading.py            |  3 ++-
 CIM15/IEC61968/Metering/SDPLocation.py        |  3 ++-
 .../IEC61968/Metering/ServiceDeliveryPoint.py |  6 +++--
 .../PaymentMetering/AuxiliaryAccount.py       |  3 ++-
 CIM15/IEC61968/PaymentMetering/Charge.py      |  9 ++++---
 .../ConsumptionTariffInterval.py              |  9 ++++---
 .../PaymentMetering/MerchantAccount.py        |  3 ++-
 .../IEC61968/PaymentMetering/TariffProfile.py |  9 ++++---
 .../PaymentMetering/TimeTariffInterval.py     |  9 ++++---
 CIM15/IEC61968/PaymentMetering/Transactor.py  |  3 ++-
 CIM15/IEC61968/Work/Work.py                   |  6 +++--
 CIM15/IEC61970/Core/ConductingEquipment.py    |  3 ++-
 CIM15/IEC61970/Core/Equipment.py              |  3 ++-
 CIM15/IEC61970/Core/PowerSystemResource.py    | 15 +++++++----
 CIM15/IEC61970/Core/PsrList.py                |  3 ++-
 CIM15/IEC61970/Core/ReportingGroup.py         |  3 ++-
 .../GenerationDynamics/PrimeMover.py          |  3 ++-
 .../GenerationDynamics/SteamSupply.py         |  3 ++-
 .../GenerationDynamics/SteamTurbine.py        |  3 ++-
 CIM15/IEC61970/Graphics/DiagramObject.py      |  3 ++-
 CIM15/IEC61970/Graphics/VisibilityLayer.py    |  3 ++-
 .../InfAssets/AssetPropertyCurve.py           |  3 ++-
 .../Informative/InfAssets/DimensionsInfo.py   |  3 ++-
 .../IEC61970/Informative/InfAssets/Medium.py  |  3 ++-
 .../InfAssets/MountingConnection.py           |  6 +++--
 .../Informative/InfAssets/MountingPoint.py    |  3 ++-
 .../Informative/InfAssets/PowerRating.py      |  3 ++-
 .../Informative/InfAssets/Procedure.py        |  6 +++--
 .../Informative/InfAssets/ProcedureDataSet.py |  9 ++++---
 .../Informative/InfAssets/ReliabilityInfo.py  |  3 ++-
 .../Informative/InfAssets/Specification.py    |  6 +++--
 .../Informative/InfAssets/Structure.py        |  3 ++-
 .../Informative/InfAssets/TransformerAsset.py |  3 ++-
 .../InfAssets/TransformerObservation.py       |  3 ++-
 .../Informative/InfCommon/BusinessRole.py     |  3 ++-
 CIM15/IEC61970/Informative/InfCommon/Craft.py |  9 ++++---
 .../InfCommon/ScheduleParameterInfo.py        |  3 ++-
 .../Informative/InfCommon/ScheduledEvent.py   |  3 ++-
 CIM15/IEC61970/Informative/InfCommon/Skill.py |  6 +++--
 .../InfCustomers/CustomerBillingInfo.py       |  3 ++-
 .../InfCustomers/WorkBillingInfo.py           |  3 ++-
 .../InfERPSupport/ErpInvoiceLineItem.py       | 12 ++++++---
 .../InfERPSupport/ErpJournalEntry.py          |  9 ++++---
 .../InfERPSupport/ErpLedgerEntry.py           |  3 ++-
 .../InfERPSupport/ErpOrganisation.py          |  9 ++++---
 .../Informative/InfERPSupport/ErpPayable.py   |  3 ++-
 .../InfERPSupport/ErpPayableLineItem.py       |  6 +++--
 .../Informative/InfERPSupport/ErpPayment.py   |  9 ++++---
 .../Informative/InfERPSupport/ErpPerson.py    | 18 ++++++++-----
 .../InfERPSupport/ErpRecDelvLineItem.py       |  6 +++--
 .../InfERPSupport/ErpRecLineItem.py           |  6 +++--
 .../Informative/InfGMLSupport/Diagram.py      |  6 +++--
 .../InfGMLSupport/GmlDiagramObject.py         | 12 ++++++---
 .../InfGMLSupport/GmlFeatureStyle.py          |  6 +++--
 .../InfGMLSupport/GmlFeatureType.py           |  3 ++-
 .../Informative/InfGMLSupport/GmlFill.py      |  6 +++--
 .../Informative/InfGMLSupport/GmlFont.py      |  3 ++-
 .../Informative/InfGMLSupport/GmlGraphic.py   |  3 ++-
 .../Informative/InfGMLSupport/GmlMark.py      |  9 ++++---
 .../InfGMLSupport/GmlObservation.py           |  3 ++-
 .../Informative/InfGMLSupport/GmlSelector.py  |  3 ++-
 .../Informative/InfGMLSupport/GmlStroke.py    |  6 +++--
 .../InfGMLSupport/GmlSvgParameter.py          |  9 ++++---
 .../Informative/InfGMLSupport/GmlSymbol.py    |  3 ++-
 .../InfLoadControl/LoadMgmtFunction.py        |  3 ++-
 .../Informative/InfLocations/Hazard.py        |  3 ++-
 .../Informative/InfLocations/LandProperty.py  | 12 ++++++---
 .../InfLocations/OrgPropertyRole.py           |  3 ++-
 .../Informative/InfLocations/RedLine.py       |  3 ++-
 .../Informative/InfLocations/RightOfWay.py    |  3 ++-
 .../Informative/InfLocations/Route.py         |  3 ++-
 .../Informative/InfOperations/CallBack.py     |  6 +++--
 .../Informative/InfOperations/ChangeSet.py    |  6 +++--
 .../Informative/InfOperations/Circuit.py      |  3 ++-
 .../InfOperations/CircuitSection.py           |  3 ++-
 .../Informative/InfOperations/IncidentCode.py |  3 ++-
 .../InfOperations/IncidentRecord.py           |  3 ++-
 .../InfOperations/NetworkDataSet.py           |  9 ++++---
 .../Informative/InfOperations/OutageCode.py   |  6 +++--
 .../InfOperations/OutageNotification.py       |  3 ++-
 .../Informative/InfOperations/OutageRecord.py |  3 ++-
 .../Informative/InfOperations/OutageStep.py   |  6 +++--
 .../InfOperations/SwitchingSchedule.py        |  3 ++-
 .../InfOperations/SwitchingStep.py            |  3 ++-
 .../InfOperations/TroubleTicket.py            |  3 ++-
 .../Informative/InfWork/Appointment.py        |  3 ++-
 .../Informative/InfWork/Assignment.py         |  3 ++-
 CIM15/IEC61970/Informative/InfWork/CUAsset.py |  3 ++-
 .../Informative/InfWork/CUContractorItem.py   |  3 ++-
 CIM15/IEC61970/Informative/InfWork/CUGroup.py |  9 ++++---
 .../Informative/InfWork/CULaborItem.py        |  6 +++--
 .../Informative/InfWork/CUMaterialItem.py     |  6 +++--
 .../InfWork/CUWorkEquipmentItem.py            |  3 ++-
 .../Informative/InfWork/Capability.py         |  6 +++--
 .../Informative/InfWork/CompatibleUnit.py     | 21 ++++++++++-----
 .../Informative/InfWork/ConditionFactor.py    |  9 ++++---
 .../Informative/InfWork/ContractorItem.py     |  3 ++-
 .../IEC61970/Informative/InfWork/CostType.py  |  3 ++-
 CIM15/IEC61970/Informative/InfWork/Crew.py    | 24 +++++++++++------
 CIM15/IEC61970/Informative/InfWork/Design.py  |  9 ++++---
 .../Informative/InfWork/DesignLocation.py     | 12 ++++++---
 .../Informative/InfWork/DesignLocationCU.py   | 15 +++++++----
 .../IEC61970/Informative/InfWork/LaborItem.py |  3 ++-
 .../Informative/InfWork/MaterialItem.py       |  3 ++-
 CIM15/IEC61970/Informative/InfWork/Project.py |  3 ++-
 .../Informative/InfWork/PropertyUnit.py       |  6 +++--
 .../InfWork/QualificationRequirement.py       | 12 ++++++---
 CIM15/IEC61970/Informative/InfWork/Request.py |  3 ++-
 .../Informative/InfWork/ShiftPattern.py       |  3 ++-
 .../Informative/InfWork/WorkCostDetail.py     |  6 +++--
 .../Informative/InfWork/WorkLocation.py       |  3 ++-
 .../IEC61970/Informative/InfWork/WorkTask.py  | 12 ++++++---
 CIM15/IEC61970/Meas/Accumulator.py            |  3 ++-
 CIM15/IEC61970/Meas/AccumulatorLimitSet.py    |  3 ++-
 CIM15/IEC61970/Meas/Analog.py                 |  3 ++-
 CIM15/IEC61970/Meas/AnalogLimitSet.py         |  3 ++-
 CIM15/IEC61970/Meas/Limit.py                  |  3 ++-
 CIM15/IEC61970/Meas/Measurement.py            |  6 +++--
 CIM15/IEC61970/Meas/MeasurementValue.py       |  3 ++-
 CIM15/IEC61970/Outage/SwitchingOperation.py   |  3 ++-
 .../Protection/ProtectionEquipment.py         |  6 +++--
 CIM15/IEC61970/SCADA/CommunicationLink.py     |  3 ++-
 CIM15/IEC61970/SCADA/RemoteUnit.py            |  3 ++-
 CIM15/IEC61970/Wires/ACLineSegment.py         |  3 ++-
 .../IEC61970/Wires/CurrentTemperatureCurve.py |  3 ++-
 CIM15/IEC61970/Wires/ProtectedSwitch.py       |  3 ++-
 .../IEC61970/Wires/ReactiveCapabilityCurve.py |  3 ++-
 CIM15/IEC61970/Wires/Switch.py                |  9 ++++---
 CIM15/IEC61970/Wires/SynchronousMachine.py    |  6 +++--
 CIM15/IEC61970/Wires/TransformerEnd.py        |  3 ++-
 .../Wires/TransformerMeshImpedance.py         |  6 +++--
 CIM15/IEC62325/MarketParticipant.py           |  3 ++-
 CIM15/IEC62325/MarketRole.py                  |  3 ++-
 235 files changed, 804 insertions(+), 402 deletions(-)

diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/OpenCircuitTest.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/OpenCircuitTest.py
index 5cbcd33..6acadee 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/OpenCircuitTest.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/OpenCircuitTest.py
@@ -79,7 +79,8 @@ class OpenCircuitTest(DistributionWindingTest):
         for obj in MeasuredWindingSpecs:
             if self not in obj._OpenCircuitTests:
                 obj._OpenCircuitTests.append(self)
-            self._MeasuredWindingSpecs.append(obj)
+            if obj not in self._MeasuredWindingSpecs:
+                self._MeasuredWindingSpecs.append(obj)
 
     def removeMeasuredWindingSpecs(self, *MeasuredWindingSpecs):
         for obj in MeasuredWindingSpecs:
diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ShortCircuitTest.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ShortCircuitTest.py
index cd05057..57fc807 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ShortCircuitTest.py
@@ -79,7 +79,8 @@ class ShortCircuitTest(DistributionWindingTest):
         for obj in ShortedWindingSpecs:
             if self not in obj._ShortCircuitTests:
                 obj._ShortCircuitTests.append(self)
-            self._ShortedWindingSpecs.append(obj)
+            if obj not in self._ShortedWindingSpecs:
+                self._ShortedWindingSpecs.append(obj)
 
     def removeShortedWindingSpecs(self, *ShortedWindingSpecs):
         for obj in ShortedWindingSpecs:
diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ToWindingSpec.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ToWindingSpec.py
index 9fdf87a..d9e940e 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ToWindingSpec.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ToWindingSpec.py
@@ -83,7 +83,8 @@ class ToWindingSpec(IdentifiedObject):
         for obj in OpenCircuitTests:
             if self not in obj._MeasuredWindingSpecs:
                 obj._MeasuredWindingSpecs.append(self)
-            self._OpenCircuitTests.append(obj)
+            if obj not in self._OpenCircuitTests:
+                self._OpenCircuitTests.append(obj)
 
     def removeOpenCircuitTests(self, *OpenCircuitTests):
         for obj in OpenCircuitTests:
@@ -113,7 +114,8 @@ class ToWindingSpec(IdentifiedObject):
         for obj in ShortCircuitTests:
             if self not in obj._ShortedWindingSpecs:
                 obj._ShortedWindingSpecs.append(self)
-            self._ShortCircuitTests.append(obj)
+            if obj not in self._ShortCircuitTests:
+                self._ShortCircuitTests.append(obj)
 
     def removeShortCircuitTests(self, *ShortCircuitTests):
         for obj in ShortCircuitTests:
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/OpenCircuitTest.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/OpenCircuitTest.py
index 5360dbb..77b512b 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/OpenCircuitTest.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/OpenCircuitTest.py
@@ -79,7 +79,8 @@ class OpenCircuitTest(DistributionWindingTest):
         for obj in MeasuredWindingSpecs:
             if self not in obj._OpenCircuitTests:
                 obj._OpenCircuitTests.append(self)
-            self._MeasuredWindingSpecs.append(obj)
+            if obj not in self._MeasuredWindingSpecs:
+                self._MeasuredWindingSpecs.append(obj)
 
     def removeMeasuredWindingSpecs(self, *MeasuredWindingSpecs):
         for obj in MeasuredWindingSpecs:
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ShortCircuitTest.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ShortCircuitTest.py
index a24ba46..cef88fb 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ShortCircuitTest.py
@@ -79,7 +79,8 @@ class ShortCircuitTest(DistributionWindingTest):
         for obj in ShortedWindingSpecs:
             if self not in obj._ShortCircuitTests:
                 obj._ShortCircuitTests.append(self)
-            self._ShortedWindingSpecs.append(obj)
+            if obj not in self._ShortedWindingSpecs:
+                self._ShortedWindingSpecs.append(obj)
 
     def removeShortedWindingSpecs(self, *ShortedWindingSpecs):
         for obj in ShortedWindingSpecs:
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ToWindingSpec.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ToWindingSpec.py
index 11bfe0e..ba37b41 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ToWindingSpec.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ToWindingSpec.py
@@ -83,7 +83,8 @@ class ToWindingSpec(IdentifiedObject):
         for obj in OpenCircuitTests:
             if self not in obj._MeasuredWindingSpecs:
                 obj._MeasuredWindingSpecs.append(self)
-            self._OpenCircuitTests.append(obj)
+            if obj not in self._OpenCircuitTests:
+                self._OpenCircuitTests.append(obj)
 
     def removeOpenCircuitTests(self, *OpenCircuitTests):
         for obj in OpenCircuitTests:
@@ -113,7 +114,8 @@ class ToWindingSpec(IdentifiedObject):
         for obj in ShortCircuitTests:
             if self not in obj._ShortedWindingSpecs:
                 obj._ShortedWindingSpecs.append(self)
-            self._ShortCircuitTests.append(obj)
+            if obj not in self._ShortCircuitTests:
+                self._ShortCircuitTests.append(obj)
 
     def removeShortCircuitTests(self, *ShortCircuitTests):
         for obj in ShortCircuitTests:
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/OpenCircuitTest.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/OpenCircuitTest.py
index 4db880d..c39914c 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/OpenCircuitTest.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/OpenCircuitTest.py
@@ -79,7 +79,8 @@ class OpenCircuitTest(DistributionWindingTest):
         for obj in MeasuredWindingSpecs:
             if self not in obj._OpenCircuitTests:
                 obj._OpenCircuitTests.append(self)
-            self._MeasuredWindingSpecs.append(obj)
+            if obj not in self._MeasuredWindingSpecs:
+                self._MeasuredWindingSpecs.append(obj)
 
     def removeMeasuredWindingSpecs(self, *MeasuredWindingSpecs):
         for obj in MeasuredWindingSpecs:
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ShortCircuitTest.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ShortCircuitTest.py
index b1d73f4..3e7ce73 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ShortCircuitTest.py
@@ -79,7 +79,8 @@ class ShortCircuitTest(DistributionWindingTest):
         for obj in ShortedWindingSpecs:
             if self not in obj._ShortCircuitTests:
                 obj._ShortCircuitTests.append(self)
-            self._ShortedWindingSpecs.append(obj)
+            if obj not in self._ShortedWindingSpecs:
+                self._ShortedWindingSpecs.append(obj)
 
     def removeShortedWindingSpecs(self, *ShortedWindingSpecs):
         for obj in ShortedWindingSpecs:
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ToWindingSpec.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ToWindingSpec.py
index 4bd1e66..2f90d39 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ToWindingSpec.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ToWindingSpec.py
@@ -83,7 +83,8 @@ class ToWindingSpec(IdentifiedObject):
         for obj in OpenCircuitTests:
             if self not in obj._MeasuredWindingSpecs:
                 obj._MeasuredWindingSpecs.append(self)
-            self._OpenCircuitTests.append(obj)
+            if obj not in self._OpenCircuitTests:
+                self._OpenCircuitTests.append(obj)
 
     def removeOpenCircuitTests(self, *OpenCircuitTests):
         for obj in OpenCircuitTests:
@@ -113,7 +114,8 @@ class ToWindingSpec(IdentifiedObject):
         for obj in ShortCircuitTests:
             if self not in obj._ShortedWindingSpecs:
                 obj._ShortedWindingSpecs.append(self)
-            self._ShortCircuitTests.append(obj)
+            if obj not in self._ShortCircuitTests:
+                self._ShortCircuitTests.append(obj)
 
     def removeShortCircuitTests(self, *ShortCircuitTests):
         for obj in ShortCircuitTests:
diff --git a/CIM14/ENTSOE/Dynamics/IEC61968/Assets/AssetsAsset.py b/CIM14/ENTSOE/Dynamics/IEC61968/Assets/AssetsAsset.py
index a6eef26..baebce7 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61968/Assets/AssetsAsset.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61968/Assets/AssetsAsset.py
@@ -61,7 +61,8 @@ class AssetsAsset(CoreIdentifiedObject):
         for obj in PowerSystemResources:
             if self not in obj._Assets:
                 obj._Assets.append(self)
-            self._PowerSystemResources.append(obj)
+            if obj not in self._PowerSystemResources:
+                self._PowerSystemResources.append(obj)
 
     def removePowerSystemResources(self, *PowerSystemResources):
         for obj in PowerSystemResources:
diff --git a/CIM14/ENTSOE/Dynamics/IEC61968/Customers/CustomersCustomerAgreement.py b/CIM14/ENTSOE/Dynamics/IEC61968/Customers/CustomersCustomerAgreement.py
index 50fd045..45a099e 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61968/Customers/CustomersCustomerAgreement.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61968/Customers/CustomersCustomerAgreement.py
@@ -61,7 +61,8 @@ class CustomersCustomerAgreement(CoreIdentifiedObject):
         for obj in Equipments:
             if self not in obj._CustomerAgreements:
                 obj._CustomerAgreements.append(self)
-            self._Equipments.append(obj)
+            if obj not in self._Equipments:
+                self._Equipments.append(obj)
 
     def removeEquipments(self, *Equipments):
         for obj in Equipments:
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py
index c54e911..3150ff3 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py
@@ -137,7 +137,8 @@ class CoreConductingEquipment(CoreEquipment):
         for obj in ProtectionEquipments:
             if self not in obj._ConductingEquipments:
                 obj._ConductingEquipments.append(self)
-            self._ProtectionEquipments.append(obj)
+            if obj not in self._ProtectionEquipments:
+                self._ProtectionEquipments.append(obj)
 
     def removeProtectionEquipments(self, *ProtectionEquipments):
         for obj in ProtectionEquipments:
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py
index 0fab3a3..e00dc2b 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py
@@ -117,7 +117,8 @@ class CoreEquipment(CorePowerSystemResource):
         for obj in CustomerAgreements:
             if self not in obj._Equipments:
                 obj._Equipments.append(self)
-            self._CustomerAgreements.append(obj)
+            if obj not in self._CustomerAgreements:
+                self._CustomerAgreements.append(obj)
 
     def removeCustomerAgreements(self, *CustomerAgreements):
         for obj in CustomerAgreements:
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py
index d7071c6..114f89c 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py
@@ -129,7 +129,8 @@ class CorePowerSystemResource(CoreIdentifiedObject):
         for obj in ReportingGroup:
             if self not in obj._PowerSystemResource:
                 obj._PowerSystemResource.append(self)
-            self._ReportingGroup.append(obj)
+            if obj not in self._ReportingGroup:
+                self._ReportingGroup.append(obj)
 
     def removeReportingGroup(self, *ReportingGroup):
         for obj in ReportingGroup:
@@ -158,7 +159,8 @@ class CorePowerSystemResource(CoreIdentifiedObject):
         for obj in PsrLists:
             if self not in obj._PowerSystemResources:
                 obj._PowerSystemResources.append(self)
-            self._PsrLists.append(obj)
+            if obj not in self._PsrLists:
+                self._PsrLists.append(obj)
 
     def removePsrLists(self, *PsrLists):
         for obj in PsrLists:
@@ -244,7 +246,8 @@ class CorePowerSystemResource(CoreIdentifiedObject):
         for obj in Assets:
             if self not in obj._PowerSystemResources:
                 obj._PowerSystemResources.append(self)
-            self._Assets.append(obj)
+            if obj not in self._Assets:
+                self._Assets.append(obj)
 
     def removeAssets(self, *Assets):
         for obj in Assets:
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePsrList.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePsrList.py
index e7a359c..8e39a7b 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePsrList.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePsrList.py
@@ -61,7 +61,8 @@ class CorePsrList(CoreIdentifiedObject):
         for obj in PowerSystemResources:
             if self not in obj._PsrLists:
                 obj._PsrLists.append(self)
-            self._PowerSystemResources.append(obj)
+            if obj not in self._PowerSystemResources:
+                self._PowerSystemResources.append(obj)
 
     def removePowerSystemResources(self, *PowerSystemResources):
         for obj in PowerSystemResources:
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreReportingGroup.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreReportingGroup.py
index d266c08..5a66196 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreReportingGroup.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreReportingGroup.py
@@ -61,7 +61,8 @@ class CoreReportingGroup(CoreIdentifiedObject):
         for obj in PowerSystemResource:
             if self not in obj._ReportingGroup:
                 obj._ReportingGroup.append(self)
-            self._PowerSystemResource.append(obj)
+            if obj not in self._PowerSystemResource:
+                self._PowerSystemResource.append(obj)
 
     def removePowerSystemResource(self, *PowerSystemResource):
         for obj in PowerSystemResource:
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Protection/ProtectionProtectionEquipment.py b/CIM14/ENTSOE/Dynamics/IEC61970/Protection/ProtectionProtectionEquipment.py
index 7432aaa..374748e 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Protection/ProtectionProtectionEquipment.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Protection/ProtectionProtectionEquipment.py
@@ -61,7 +61,8 @@ class ProtectionProtectionEquipment(CoreEquipment):
         for obj in ConductingEquipments:
             if self not in obj._ProtectionEquipments:
                 obj._ProtectionEquipments.append(self)
-            self._ConductingEquipments.append(obj)
+            if obj not in self._ConductingEquipments:
+                self._ConductingEquipments.append(obj)
 
     def removeConductingEquipments(self, *ConductingEquipments):
         for obj in ConductingEquipments:
diff --git a/CIM14/IEC61968/AssetModels/OpenCircuitTest.py b/CIM14/IEC61968/AssetModels/OpenCircuitTest.py
index d76c162..974d850 100644
--- a/CIM14/IEC61968/AssetModels/OpenCircuitTest.py
+++ b/CIM14/IEC61968/AssetModels/OpenCircuitTest.py
@@ -79,7 +79,8 @@ class OpenCircuitTest(DistributionWindingTest):
         for obj in MeasuredWindingSpecs:
             if self not in obj._OpenCircuitTests:
                 obj._OpenCircuitTests.append(self)
-            self._MeasuredWindingSpecs.append(obj)
+            if obj not in self._MeasuredWindingSpecs:
+                self._MeasuredWindingSpecs.append(obj)
 
     def removeMeasuredWindingSpecs(self, *MeasuredWindingSpecs):
         for obj in MeasuredWindingSpecs:
diff --git a/CIM14/IEC61968/AssetModels/ShortCircuitTest.py b/CIM14/IEC61968/AssetModels/ShortCircuitTest.py
index 25f6eb5..5ae0710 100644
--- a/CIM14/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM14/IEC61968/AssetModels/ShortCircuitTest.py
@@ -79,7 +79,8 @@ class ShortCircuitTest(DistributionWindingTest):
         for obj in ShortedWindingSpecs:
             if self not in obj._ShortCircuitTests:
                 obj._ShortCircuitTests.append(self)
-            self._ShortedWindingSpecs.append(obj)
+            if obj not in self._ShortedWindingSpecs:
+                self._ShortedWindingSpecs.append(obj)
 
     def removeShortedWindingSpecs(self, *ShortedWindingSpecs):
         for obj in ShortedWindingSpecs:
diff --git a/CIM14/IEC61968/AssetModels/ToWindingSpec.py b/CIM14/IEC61968/AssetModels/ToWindingSpec.py
index fe8b4af..6997be6 100644
--- a/CIM14/IEC61968/AssetModels/ToWindingSpec.py
+++ b/CIM14/IEC61968/AssetModels/ToWindingSpec.py
@@ -100,7 +100,8 @@ class ToWindingSpec(IdentifiedObject):
         for obj in OpenCircuitTests:
             if self not in obj._MeasuredWindingSpecs:
                 obj._MeasuredWindingSpecs.append(self)
-            self._OpenCircuitTests.append(obj)
+            if obj not in self._OpenCircuitTests:
+                self._OpenCircuitTests.append(obj)
 
     def removeOpenCircuitTests(self, *OpenCircuitTests):
         for obj in OpenCircuitTests:
@@ -130,7 +131,8 @@ class ToWindingSpec(IdentifiedObject):
         for obj in ShortCircuitTests:
             if self not in obj._ShortedWindingSpecs:
                 obj._ShortedWindingSpecs.append(self)
-            self._ShortCircuitTests.append(obj)
+            if obj not in self._ShortCircuitTests:
+                self._ShortCircuitTests.append(obj)
 
     def removeShortCircuitTests(self, *ShortCircuitTests):
         for obj in ShortCircuitTests:
diff --git a/CIM14/IEC61968/Assets/Asset.py b/CIM14/IEC61968/Assets/Asset.py
index 25a6047..0e0e21b 100644
--- a/CIM14/IEC61968/Assets/Asset.py
+++ b/CIM14/IEC61968/Assets/Asset.py
@@ -148,7 +148,8 @@ class Asset(IdentifiedObject):
         for obj in PowerSystemResources:
             if self not in obj._Assets:
                 obj._Assets.append(self)
-            self._PowerSystemResources.append(obj)
+            if obj not in self._PowerSystemResources:
+                self._PowerSystemResources.append(obj)
 
     def removePowerSystemResources(self, *PowerSystemResources):
         for obj in PowerSystemResources:
@@ -178,7 +179,8 @@ class Asset(IdentifiedObject):
         for obj in Properties:
             if self not in obj._PropertyAssets:
                 obj._PropertyAssets.append(self)
-            self._Properties.append(obj)
+            if obj not in self._Properties:
+                self._Properties.append(obj)
 
     def removeProperties(self, *Properties):
         for obj in Properties:
@@ -211,7 +213,8 @@ class Asset(IdentifiedObject):
         for obj in ActivityRecords:
             if self not in obj._Assets:
                 obj._Assets.append(self)
-            self._ActivityRecords.append(obj)
+            if obj not in self._ActivityRecords:
+                self._ActivityRecords.append(obj)
 
     def removeActivityRecords(self, *ActivityRecords):
         for obj in ActivityRecords:
@@ -319,7 +322,8 @@ class Asset(IdentifiedObject):
         for obj in Ratings:
             if self not in obj._RatingAssets:
                 obj._RatingAssets.append(self)
-            self._Ratings.append(obj)
+            if obj not in self._Ratings:
+                self._Ratings.append(obj)
 
     def removeRatings(self, *Ratings):
         for obj in Ratings:
diff --git a/CIM14/IEC61968/Common/ActivityRecord.py b/CIM14/IEC61968/Common/ActivityRecord.py
index 2f7fa1b..0a95d73 100644
--- a/CIM14/IEC61968/Common/ActivityRecord.py
+++ b/CIM14/IEC61968/Common/ActivityRecord.py
@@ -86,7 +86,8 @@ class ActivityRecord(IdentifiedObject):
         for obj in Documents:
             if self not in obj._ActivityRecords:
                 obj._ActivityRecords.append(self)
-            self._Documents.append(obj)
+            if obj not in self._Documents:
+                self._Documents.append(obj)
 
     def removeDocuments(self, *Documents):
         for obj in Documents:
@@ -116,7 +117,8 @@ class ActivityRecord(IdentifiedObject):
         for obj in Assets:
             if self not in obj._ActivityRecords:
                 obj._ActivityRecords.append(self)
-            self._Assets.append(obj)
+            if obj not in self._Assets:
+                self._Assets.append(obj)
 
     def removeAssets(self, *Assets):
         for obj in Assets:
diff --git a/CIM14/IEC61968/Common/Document.py b/CIM14/IEC61968/Common/Document.py
index ee68079..1f2d248 100644
--- a/CIM14/IEC61968/Common/Document.py
+++ b/CIM14/IEC61968/Common/Document.py
@@ -106,7 +106,8 @@ class Document(IdentifiedObject):
         for obj in ActivityRecords:
             if self not in obj._Documents:
                 obj._Documents.append(self)
-            self._ActivityRecords.append(obj)
+            if obj not in self._ActivityRecords:
+                self._ActivityRecords.append(obj)
 
     def removeActivityRecords(self, *ActivityRecords):
         for obj in ActivityRecords:
@@ -139,7 +140,8 @@ class Document(IdentifiedObject):
         for obj in Measurements:
             if self not in obj._Documents:
                 obj._Documents.append(self)
-            self._Measurements.append(obj)
+            if obj not in self._Measurements:
+                self._Measurements.append(obj)
 
     def removeMeasurements(self, *Measurements):
         for obj in Measurements:
diff --git a/CIM14/IEC61968/Common/Location.py b/CIM14/IEC61968/Common/Location.py
index b638d17..512267e 100644
--- a/CIM14/IEC61968/Common/Location.py
+++ b/CIM14/IEC61968/Common/Location.py
@@ -178,7 +178,8 @@ class Location(IdentifiedObject):
         for obj in Measurements:
             if self not in obj._Locations:
                 obj._Locations.append(self)
-            self._Measurements.append(obj)
+            if obj not in self._Measurements:
+                self._Measurements.append(obj)
 
     def removeMeasurements(self, *Measurements):
         for obj in Measurements:
diff --git a/CIM14/IEC61968/Common/UserAttribute.py b/CIM14/IEC61968/Common/UserAttribute.py
index 45ab81c..30581ea 100644
--- a/CIM14/IEC61968/Common/UserAttribute.py
+++ b/CIM14/IEC61968/Common/UserAttribute.py
@@ -82,7 +82,8 @@ class UserAttribute(Element):
         for obj in PropertyAssets:
             if self not in obj._Properties:
                 obj._Properties.append(self)
-            self._PropertyAssets.append(obj)
+            if obj not in self._PropertyAssets:
+                self._PropertyAssets.append(obj)
 
     def removePropertyAssets(self, *PropertyAssets):
         for obj in PropertyAssets:
@@ -128,7 +129,8 @@ class UserAttribute(Element):
         for obj in RatingAssets:
             if self not in obj._Ratings:
                 obj._Ratings.append(self)
-            self._RatingAssets.append(obj)
+            if obj not in self._RatingAssets:
+                self._RatingAssets.append(obj)
 
     def removeRatingAssets(self, *RatingAssets):
         for obj in RatingAssets:
diff --git a/CIM14/IEC61968/Customers/Customer.py b/CIM14/IEC61968/Customers/Customer.py
index 5a7a513..d4e494a 100644
--- a/CIM14/IEC61968/Customers/Customer.py
+++ b/CIM14/IEC61968/Customers/Customer.py
@@ -93,7 +93,8 @@ class Customer(Organisation):
         for obj in Works:
             if self not in obj._Customers:
                 obj._Customers.append(self)
-            self._Works.append(obj)
+            if obj not in self._Works:
+                self._Works.append(obj)
 
     def removeWorks(self, *Works):
         for obj in Works:
diff --git a/CIM14/IEC61968/Customers/CustomerAgreement.py b/CIM14/IEC61968/Customers/CustomerAgreement.py
index a14259a..875ce22 100644
--- a/CIM14/IEC61968/Customers/CustomerAgreement.py
+++ b/CIM14/IEC61968/Customers/CustomerAgreement.py
@@ -153,7 +153,8 @@ class CustomerAgreement(Agreement):
         for obj in PricingStructures:
             if self not in obj._CustomerAgreements:
                 obj._CustomerAgreements.append(self)
-            self._PricingStructures.append(obj)
+            if obj not in self._PricingStructures:
+                self._PricingStructures.append(obj)
 
     def removePricingStructures(self, *PricingStructures):
         for obj in PricingStructures:
@@ -183,7 +184,8 @@ class CustomerAgreement(Agreement):
         for obj in ServiceLocations:
             if self not in obj._CustomerAgreements:
                 obj._CustomerAgreements.append(self)
-            self._ServiceLocations.append(obj)
+            if obj not in self._ServiceLocations:
+                self._ServiceLocations.append(obj)
 
     def removeServiceLocations(self, *ServiceLocations):
         for obj in ServiceLocations:
@@ -350,7 +352,8 @@ class CustomerAgreement(Agreement):
         for obj in Equipments:
             if self not in obj._CustomerAgreements:
                 obj._CustomerAgreements.append(self)
-            self._Equipments.append(obj)
+            if obj not in self._Equipments:
+                self._Equipments.append(obj)
 
     def removeEquipments(self, *Equipments):
         for obj in Equipments:
diff --git a/CIM14/IEC61968/Customers/PricingStructure.py b/CIM14/IEC61968/Customers/PricingStructure.py
index 4aa99fd..db5a85a 100644
--- a/CIM14/IEC61968/Customers/PricingStructure.py
+++ b/CIM14/IEC61968/Customers/PricingStructure.py
@@ -125,7 +125,8 @@ class PricingStructure(Document):
         for obj in ServiceDeliveryPoints:
             if self not in obj._PricingStructures:
                 obj._PricingStructures.append(self)
-            self._ServiceDeliveryPoints.append(obj)
+            if obj not in self._ServiceDeliveryPoints:
+                self._ServiceDeliveryPoints.append(obj)
 
     def removeServiceDeliveryPoints(self, *ServiceDeliveryPoints):
         for obj in ServiceDeliveryPoints:
@@ -155,7 +156,8 @@ class PricingStructure(Document):
         for obj in CustomerAgreements:
             if self not in obj._PricingStructures:
                 obj._PricingStructures.append(self)
-            self._CustomerAgreements.append(obj)
+            if obj not in self._CustomerAgreements:
+                self._CustomerAgreements.append(obj)
 
     def removeCustomerAgreements(self, *CustomerAgreements):
         for obj in CustomerAgreements:
@@ -202,7 +204,8 @@ class PricingStructure(Document):
         for obj in Tariffs:
             if self not in obj._PricingStructures:
                 obj._PricingStructures.append(self)
-            self._Tariffs.append(obj)
+            if obj not in self._Tariffs:
+                self._Tariffs.append(obj)
 
     def removeTariffs(self, *Tariffs):
         for obj in Tariffs:
diff --git a/CIM14/IEC61968/Customers/ServiceLocation.py b/CIM14/IEC61968/Customers/ServiceLocation.py
index 6de7a05..1786e95 100644
--- a/CIM14/IEC61968/Customers/ServiceLocation.py
+++ b/CIM14/IEC61968/Customers/ServiceLocation.py
@@ -105,7 +105,8 @@ class ServiceLocation(Location):
         for obj in CustomerAgreements:
             if self not in obj._ServiceLocations:
                 obj._ServiceLocations.append(self)
-            self._CustomerAgreements.append(obj)
+            if obj not in self._CustomerAgreements:
+                self._CustomerAgreements.append(obj)
 
     def removeCustomerAgreements(self, *CustomerAgreements):
         for obj in CustomerAgreements:
diff --git a/CIM14/IEC61968/Customers/Tariff.py b/CIM14/IEC61968/Customers/Tariff.py
index 1790105..bfe428d 100644
--- a/CIM14/IEC61968/Customers/Tariff.py
+++ b/CIM14/IEC61968/Customers/Tariff.py
@@ -75,7 +75,8 @@ class Tariff(Document):
         for obj in TariffProfiles:
             if self not in obj._Tariffs:
                 obj._Tariffs.append(self)
-            self._TariffProfiles.append(obj)
+            if obj not in self._TariffProfiles:
+                self._TariffProfiles.append(obj)
 
     def removeTariffProfiles(self, *TariffProfiles):
         for obj in TariffProfiles:
@@ -105,7 +106,8 @@ class Tariff(Document):
         for obj in PricingStructures:
             if self not in obj._Tariffs:
                 obj._Tariffs.append(self)
-            self._PricingStructures.append(obj)
+            if obj not in self._PricingStructures:
+                self._PricingStructures.append(obj)
 
     def removePricingStructures(self, *PricingStructures):
         for obj in PricingStructures:
diff --git a/CIM14/IEC61968/LoadControl/ConnectDisconnectFunction.py b/CIM14/IEC61968/LoadControl/ConnectDisconnectFunction.py
index db01169..e1cc4b0 100644
--- a/CIM14/IEC61968/LoadControl/ConnectDisconnectFunction.py
+++ b/CIM14/IEC61968/LoadControl/ConnectDisconnectFunction.py
@@ -96,7 +96,8 @@ class ConnectDisconnectFunction(DeviceFunction):
         for obj in Switches:
             if self not in obj._ConnectDisconnectFunctions:
                 obj._ConnectDisconnectFunctions.append(self)
-            self._Switches.append(obj)
+            if obj not in self._Switches:
+                self._Switches.append(obj)
 
     def removeSwitches(self, *Switches):
         for obj in Switches:
diff --git a/CIM14/IEC61968/Metering/EndDeviceAsset.py b/CIM14/IEC61968/Metering/EndDeviceAsset.py
index a0c23b1..bd2ba70 100644
--- a/CIM14/IEC61968/Metering/EndDeviceAsset.py
+++ b/CIM14/IEC61968/Metering/EndDeviceAsset.py
@@ -147,7 +147,8 @@ class EndDeviceAsset(AssetContainer):
         for obj in EndDeviceGroups:
             if self not in obj._EndDeviceAssets:
                 obj._EndDeviceAssets.append(self)
-            self._EndDeviceGroups.append(obj)
+            if obj not in self._EndDeviceGroups:
+                self._EndDeviceGroups.append(obj)
 
     def removeEndDeviceGroups(self, *EndDeviceGroups):
         for obj in EndDeviceGroups:
diff --git a/CIM14/IEC61968/Metering/EndDeviceGroup.py b/CIM14/IEC61968/Metering/EndDeviceGroup.py
index 45561e9..c9f15fd 100644
--- a/CIM14/IEC61968/Metering/EndDeviceGroup.py
+++ b/CIM14/IEC61968/Metering/EndDeviceGroup.py
@@ -75,7 +75,8 @@ class EndDeviceGroup(IdentifiedObject):
         for obj in EndDeviceAssets:
             if self not in obj._EndDeviceGroups:
                 obj._EndDeviceGroups.append(self)
-            self._EndDeviceAssets.append(obj)
+            if obj not in self._EndDeviceAssets:
+                self._EndDeviceAssets.append(obj)
 
     def removeEndDeviceAssets(self, *EndDeviceAssets):
         for obj in EndDeviceAssets:
diff --git a/CIM14/IEC61968/Metering/IntervalBlock.py b/CIM14/IEC61968/Metering/IntervalBlock.py
index 7f26ad9..2437027 100644
--- a/CIM14/IEC61968/Metering/IntervalBlock.py
+++ b/CIM14/IEC61968/Metering/IntervalBlock.py
@@ -126,7 +126,8 @@ class IntervalBlock(Element):
         for obj in IntervalReadings:
             if self not in obj._IntervalBlocks:
                 obj._IntervalBlocks.append(self)
-            self._IntervalReadings.append(obj)
+            if obj not in self._IntervalReadings:
+                self._IntervalReadings.append(obj)
 
     def removeIntervalReadings(self, *IntervalReadings):
         for obj in IntervalReadings:
diff --git a/CIM14/IEC61968/Metering/IntervalReading.py b/CIM14/IEC61968/Metering/IntervalReading.py
index 2ba7328..dd67942 100644
--- a/CIM14/IEC61968/Metering/IntervalReading.py
+++ b/CIM14/IEC61968/Metering/IntervalReading.py
@@ -93,7 +93,8 @@ class IntervalReading(MeasurementValue):
         for obj in IntervalBlocks:
             if self not in obj._IntervalReadings:
                 obj._IntervalReadings.append(self)
-            self._IntervalBlocks.append(obj)
+            if obj not in self._IntervalBlocks:
+                self._IntervalBlocks.append(obj)
 
     def removeIntervalBlocks(self, *IntervalBlocks):
         for obj in IntervalBlocks:
diff --git a/CIM14/IEC61968/Metering/MeterReading.py b/CIM14/IEC61968/Metering/MeterReading.py
index 13d55bb..faaa0c8 100644
--- a/CIM14/IEC61968/Metering/MeterReading.py
+++ b/CIM14/IEC61968/Metering/MeterReading.py
@@ -164,7 +164,8 @@ class MeterReading(IdentifiedObject):
         for obj in Readings:
             if self not in obj._MeterReadings:
                 obj._MeterReadings.append(self)
-            self._Readings.append(obj)
+            if obj not in self._Readings:
+                self._Readings.append(obj)
 
     def removeReadings(self, *Readings):
         for obj in Readings:
diff --git a/CIM14/IEC61968/Metering/Reading.py b/CIM14/IEC61968/Metering/Reading.py
index 0089354..5c71888 100644
--- a/CIM14/IEC61968/Metering/Reading.py
+++ b/CIM14/IEC61968/Metering/Reading.py
@@ -134,7 +134,8 @@ class Reading(MeasurementValue):
         for obj in MeterReadings:
             if self not in obj._Readings:
                 obj._Readings.append(self)
-            self._MeterReadings.append(obj)
+            if obj not in self._MeterReadings:
+                self._MeterReadings.append(obj)
 
     def removeMeterReadings(self, *MeterReadings):
         for obj in MeterReadings:
diff --git a/CIM14/IEC61968/Metering/SDPLocation.py b/CIM14/IEC61968/Metering/SDPLocation.py
index 01be54a..bad89b5 100644
--- a/CIM14/IEC61968/Metering/SDPLocation.py
+++ b/CIM14/IEC61968/Metering/SDPLocation.py
@@ -79,7 +79,8 @@ class SDPLocation(Location):
         for obj in ServiceDeliveryPoints:
             if self not in obj._SDPLocations:
                 obj._SDPLocations.append(self)
-            self._ServiceDeliveryPoints.append(obj)
+            if obj not in self._ServiceDeliveryPoints:
+                self._ServiceDeliveryPoints.append(obj)
 
     def removeServiceDeliveryPoints(self, *ServiceDeliveryPoints):
         for obj in ServiceDeliveryPoints:
diff --git a/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py b/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py
index e7cb678..0b279a0 100644
--- a/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py
+++ b/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py
@@ -139,7 +139,8 @@ class ServiceDeliveryPoint(IdentifiedObject):
         for obj in PricingStructures:
             if self not in obj._ServiceDeliveryPoints:
                 obj._ServiceDeliveryPoints.append(self)
-            self._PricingStructures.append(obj)
+            if obj not in self._PricingStructures:
+                self._PricingStructures.append(obj)
 
     def removePricingStructures(self, *PricingStructures):
         for obj in PricingStructures:
@@ -186,7 +187,8 @@ class ServiceDeliveryPoint(IdentifiedObject):
         for obj in SDPLocations:
             if self not in obj._ServiceDeliveryPoints:
                 obj._ServiceDeliveryPoints.append(self)
-            self._SDPLocations.append(obj)
+            if obj not in self._SDPLocations:
+                self._SDPLocations.append(obj)
 
     def removeSDPLocations(self, *SDPLocations):
         for obj in SDPLocations:
diff --git a/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py b/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py
index f218d7b..5020da9 100644
--- a/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py
+++ b/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py
@@ -88,7 +88,8 @@ class AuxiliaryAccount(Document):
         for obj in Charges:
             if self not in obj._AuxiliaryAccounts:
                 obj._AuxiliaryAccounts.append(self)
-            self._Charges.append(obj)
+            if obj not in self._Charges:
+                self._Charges.append(obj)
 
     def removeCharges(self, *Charges):
         for obj in Charges:
diff --git a/CIM14/IEC61968/PaymentMetering/Charge.py b/CIM14/IEC61968/PaymentMetering/Charge.py
index ea6d367..9303525 100644
--- a/CIM14/IEC61968/PaymentMetering/Charge.py
+++ b/CIM14/IEC61968/PaymentMetering/Charge.py
@@ -90,7 +90,8 @@ class Charge(IdentifiedObject):
         for obj in AuxiliaryAccounts:
             if self not in obj._Charges:
                 obj._Charges.append(self)
-            self._AuxiliaryAccounts.append(obj)
+            if obj not in self._AuxiliaryAccounts:
+                self._AuxiliaryAccounts.append(obj)
 
     def removeAuxiliaryAccounts(self, *AuxiliaryAccounts):
         for obj in AuxiliaryAccounts:
@@ -161,7 +162,8 @@ class Charge(IdentifiedObject):
         for obj in ConsumptionTariffIntervals:
             if self not in obj._Charges:
                 obj._Charges.append(self)
-            self._ConsumptionTariffIntervals.append(obj)
+            if obj not in self._ConsumptionTariffIntervals:
+                self._ConsumptionTariffIntervals.append(obj)
 
     def removeConsumptionTariffIntervals(self, *ConsumptionTariffIntervals):
         for obj in ConsumptionTariffIntervals:
@@ -191,7 +193,8 @@ class Charge(IdentifiedObject):
         for obj in TimeTariffIntervals:
             if self not in obj._Charges:
                 obj._Charges.append(self)
-            self._TimeTariffIntervals.append(obj)
+            if obj not in self._TimeTariffIntervals:
+                self._TimeTariffIntervals.append(obj)
 
     def removeTimeTariffIntervals(self, *TimeTariffIntervals):
         for obj in TimeTariffIntervals:
diff --git a/CIM14/IEC61968/PaymentMetering/ConsumptionTariffInterval.py b/CIM14/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
index c748d87..033f2d8 100644
--- a/CIM14/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
+++ b/CIM14/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
@@ -75,7 +75,8 @@ class ConsumptionTariffInterval(Element):
         for obj in TariffProfiles:
             if self not in obj._ConsumptionTariffIntervals:
                 obj._ConsumptionTariffIntervals.append(self)
-            self._TariffProfiles.append(obj)
+            if obj not in self._TariffProfiles:
+                self._TariffProfiles.append(obj)
 
     def removeTariffProfiles(self, *TariffProfiles):
         for obj in TariffProfiles:
@@ -105,7 +106,8 @@ class ConsumptionTariffInterval(Element):
         for obj in Charges:
             if self not in obj._ConsumptionTariffIntervals:
                 obj._ConsumptionTariffIntervals.append(self)
-            self._Charges.append(obj)
+            if obj not in self._Charges:
+                self._Charges.append(obj)
 
     def removeCharges(self, *Charges):
         for obj in Charges:
diff --git a/CIM14/IEC61968/PaymentMetering/MerchantAccount.py b/CIM14/IEC61968/PaymentMetering/MerchantAccount.py
index 1fad4d0..76ac114 100644
--- a/CIM14/IEC61968/PaymentMetering/MerchantAccount.py
+++ b/CIM14/IEC61968/PaymentMetering/MerchantAccount.py
@@ -144,7 +144,8 @@ class MerchantAccount(Document):
         for obj in Transactors:
             if self not in obj._MerchantAccounts:
                 obj._MerchantAccounts.append(self)
-            self._Transactors.append(obj)
+            if obj not in self._Transactors:
+                self._Transactors.append(obj)
 
     def removeTransactors(self, *Transactors):
         for obj in Transactors:
diff --git a/CIM14/IEC61968/PaymentMetering/TariffProfile.py b/CIM14/IEC61968/PaymentMetering/TariffProfile.py
index de85e94..9d32c17 100644
--- a/CIM14/IEC61968/PaymentMetering/TariffProfile.py
+++ b/CIM14/IEC61968/PaymentMetering/TariffProfile.py
@@ -75,7 +75,8 @@ class TariffProfile(Document):
         for obj in ConsumptionTariffIntervals:
             if self not in obj._TariffProfiles:
                 obj._TariffProfiles.append(self)
-            self._ConsumptionTariffIntervals.append(obj)
+            if obj not in self._ConsumptionTariffIntervals:
+                self._ConsumptionTariffIntervals.append(obj)
 
     def removeConsumptionTariffIntervals(self, *ConsumptionTariffIntervals):
         for obj in ConsumptionTariffIntervals:
@@ -105,7 +106,8 @@ class TariffProfile(Document):
         for obj in TimeTariffIntervals:
             if self not in obj._TariffProfiles:
                 obj._TariffProfiles.append(self)
-            self._TimeTariffIntervals.append(obj)
+            if obj not in self._TimeTariffIntervals:
+                self._TimeTariffIntervals.append(obj)
 
     def removeTimeTariffIntervals(self, *TimeTariffIntervals):
         for obj in TimeTariffIntervals:
@@ -135,7 +137,8 @@ class TariffProfile(Document):
         for obj in Tariffs:
             if self not in obj._TariffProfiles:
                 obj._TariffProfiles.append(self)
-            self._Tariffs.append(obj)
+            if obj not in self._Tariffs:
+                self._Tariffs.append(obj)
 
     def removeTariffs(self, *Tariffs):
         for obj in Tariffs:
diff --git a/CIM14/IEC61968/PaymentMetering/TimeTariffInterval.py b/CIM14/IEC61968/PaymentMetering/TimeTariffInterval.py
index 51f2794..90ee5cc 100644
--- a/CIM14/IEC61968/PaymentMetering/TimeTariffInterval.py
+++ b/CIM14/IEC61968/PaymentMetering/TimeTariffInterval.py
@@ -75,7 +75,8 @@ class TimeTariffInterval(Element):
         for obj in TariffProfiles:
             if self not in obj._TimeTariffIntervals:
                 obj._TimeTariffIntervals.append(self)
-            self._TariffProfiles.append(obj)
+            if obj not in self._TariffProfiles:
+                self._TariffProfiles.append(obj)
 
     def removeTariffProfiles(self, *TariffProfiles):
         for obj in TariffProfiles:
@@ -105,7 +106,8 @@ class TimeTariffInterval(Element):
         for obj in Charges:
             if self not in obj._TimeTariffIntervals:
                 obj._TimeTariffIntervals.append(self)
-            self._Charges.append(obj)
+            if obj not in self._Charges:
+                self._Charges.append(obj)
 
     def removeCharges(self, *Charges):
         for obj in Charges:
diff --git a/CIM14/IEC61968/PaymentMetering/Transactor.py b/CIM14/IEC61968/PaymentMetering/Transactor.py
index fa8e117..80b4c26 100644
--- a/CIM14/IEC61968/PaymentMetering/Transactor.py
+++ b/CIM14/IEC61968/PaymentMetering/Transactor.py
@@ -63,7 +63,8 @@ class Transactor(IdentifiedObject):
         for obj in MerchantAccounts:
             if self not in obj._Transactors:
                 obj._Transactors.append(self)
-            self._MerchantAccounts.append(obj)
+            if obj not in self._MerchantAccounts:
+                self._MerchantAccounts.append(obj)
 
     def removeMerchantAccounts(self, *MerchantAccounts):
         for obj in MerchantAccounts:
diff --git a/CIM14/IEC61968/Work/Work.py b/CIM14/IEC61968/Work/Work.py
index 8fe3f36..3baf928 100644
--- a/CIM14/IEC61968/Work/Work.py
+++ b/CIM14/IEC61968/Work/Work.py
@@ -75,7 +75,8 @@ class Work(Document):
         for obj in Customers:
             if self not in obj._Works:
                 obj._Works.append(self)
-            self._Customers.append(obj)
+            if obj not in self._Customers:
+                self._Customers.append(obj)
 
     def removeCustomers(self, *Customers):
         for obj in Customers:
diff --git a/CIM14/IEC61970/Core/ConductingEquipment.py b/CIM14/IEC61970/Core/ConductingEquipment.py
index 634397c..0c61eb2 100644
--- a/CIM14/IEC61970/Core/ConductingEquipment.py
+++ b/CIM14/IEC61970/Core/ConductingEquipment.py
@@ -160,7 +160,8 @@ class ConductingEquipment(Equipment):
         for obj in ProtectionEquipments:
             if self not in obj._ConductingEquipments:
                 obj._ConductingEquipments.append(self)
-            self._ProtectionEquipments.append(obj)
+            if obj not in self._ProtectionEquipments:
+                self._ProtectionEquipments.append(obj)
 
     def removeProtectionEquipments(self, *ProtectionEquipments):
         for obj in ProtectionEquipments:
diff --git a/CIM14/IEC61970/Core/Equipment.py b/CIM14/IEC61970/Core/Equipment.py
index 385b769..7204c29 100644
--- a/CIM14/IEC61970/Core/Equipment.py
+++ b/CIM14/IEC61970/Core/Equipment.py
@@ -143,7 +143,8 @@ class Equipment(PowerSystemResource):
         for obj in CustomerAgreements:
             if self not in obj._Equipments:
                 obj._Equipments.append(self)
-            self._CustomerAgreements.append(obj)
+            if obj not in self._CustomerAgreements:
+                self._CustomerAgreements.append(obj)
 
     def removeCustomerAgreements(self, *CustomerAgreements):
         for obj in CustomerAgreements:
diff --git a/CIM14/IEC61970/Core/PowerSystemResource.py b/CIM14/IEC61970/Core/PowerSystemResource.py
index 01f3189..e0b3fb0 100644
--- a/CIM14/IEC61970/Core/PowerSystemResource.py
+++ b/CIM14/IEC61970/Core/PowerSystemResource.py
@@ -112,7 +112,8 @@ class PowerSystemResource(IdentifiedObject):
         for obj in Assets:
             if self not in obj._PowerSystemResources:
                 obj._PowerSystemResources.append(self)
-            self._Assets.append(obj)
+            if obj not in self._Assets:
+                self._Assets.append(obj)
 
     def removeAssets(self, *Assets):
         for obj in Assets:
@@ -141,7 +142,8 @@ class PowerSystemResource(IdentifiedObject):
         for obj in PsrLists:
             if self not in obj._PowerSystemResources:
                 obj._PowerSystemResources.append(self)
-            self._PsrLists.append(obj)
+            if obj not in self._PsrLists:
+                self._PsrLists.append(obj)
 
     def removePsrLists(self, *PsrLists):
         for obj in PsrLists:
@@ -231,7 +233,8 @@ class PowerSystemResource(IdentifiedObject):
         for obj in ReportingGroup:
             if self not in obj._PowerSystemResource:
                 obj._PowerSystemResource.append(self)
-            self._ReportingGroup.append(obj)
+            if obj not in self._ReportingGroup:
+                self._ReportingGroup.append(obj)
 
     def removeReportingGroup(self, *ReportingGroup):
         for obj in ReportingGroup:
diff --git a/CIM14/IEC61970/Core/PsrList.py b/CIM14/IEC61970/Core/PsrList.py
index 580ed28..15a21da 100644
--- a/CIM14/IEC61970/Core/PsrList.py
+++ b/CIM14/IEC61970/Core/PsrList.py
@@ -66,7 +66,8 @@ class PsrList(IdentifiedObject):
         for obj in PowerSystemResources:
             if self not in obj._PsrLists:
                 obj._PsrLists.append(self)
-            self._PowerSystemResources.append(obj)
+            if obj not in self._PowerSystemResources:
+                self._PowerSystemResources.append(obj)
 
     def removePowerSystemResources(self, *PowerSystemResources):
         for obj in PowerSystemResources:
diff --git a/CIM14/IEC61970/Core/ReportingGroup.py b/CIM14/IEC61970/Core/ReportingGroup.py
index 29bb049..52a5e82 100644
--- a/CIM14/IEC61970/Core/ReportingGroup.py
+++ b/CIM14/IEC61970/Core/ReportingGroup.py
@@ -136,7 +136,8 @@ class ReportingGroup(IdentifiedObject):
         for obj in PowerSystemResource:
             if self not in obj._ReportingGroup:
                 obj._ReportingGroup.append(self)
-            self._PowerSystemResource.append(obj)
+            if obj not in self._PowerSystemResource:
+                self._PowerSystemResource.append(obj)
 
     def removePowerSystemResource(self, *PowerSystemResource):
         for obj in PowerSystemResource:
diff --git a/CIM14/IEC61970/Dynamics/BlockOutputReference.py b/CIM14/IEC61970/Dynamics/BlockOutputReference.py
index fd5f441..ea7854b 100644
--- a/CIM14/IEC61970/Dynamics/BlockOutputReference.py
+++ b/CIM14/IEC61970/Dynamics/BlockOutputReference.py
@@ -82,7 +82,8 @@ class BlockOutputReference(MetaBlockConnectable):
         for obj in metaBlockReference0:
             if self not in obj._blockOutputReference0:
                 obj._blockOutputReference0.append(self)
-            self._metaBlockReference0.append(obj)
+            if obj not in self._metaBlockReference0:
+                self._metaBlockReference0.append(obj)
 
     def removemetaBlockReference0(self, *metaBlockReference0):
         for obj in metaBlockReference0:
diff --git a/CIM14/IEC61970/Dynamics/CompositeModel.py b/CIM14/IEC61970/Dynamics/CompositeModel.py
index 6b0311f..d471ca7 100644
--- a/CIM14/IEC61970/Dynamics/CompositeModel.py
+++ b/CIM14/IEC61970/Dynamics/CompositeModel.py
@@ -60,7 +60,8 @@ class CompositeModel(Element):
         for obj in slotReference0:
             if self not in obj._compositeModel0:
                 obj._compositeModel0.append(self)
-            self._slotReference0.append(obj)
+            if obj not in self._slotReference0:
+                self._slotReference0.append(obj)
 
     def removeslotReference0(self, *slotReference0):
         for obj in slotReference0:
diff --git a/CIM14/IEC61970/Dynamics/Generators/GenEquiv.py b/CIM14/IEC61970/Dynamics/Generators/GenEquiv.py
index 3a31240..a05b920 100644
--- a/CIM14/IEC61970/Dynamics/Generators/GenEquiv.py
+++ b/CIM14/IEC61970/Dynamics/Generators/GenEquiv.py
@@ -66,7 +66,8 @@ class GenEquiv(RotatingMachine):
         for obj in synchronousMachine0:
             if self not in obj._genEquiv0:
                 obj._genEquiv0.append(self)
-            self._synchronousMachine0.append(obj)
+            if obj not in self._synchronousMachine0:
+                self._synchronousMachine0.append(obj)
 
     def removesynchronousMachine0(self, *synchronousMachine0):
         for obj in synchronousMachine0:
diff --git a/CIM14/IEC61970/Dynamics/Generators/GenLoad.py b/CIM14/IEC61970/Dynamics/Generators/GenLoad.py
index 072f393..af2deca 100644
--- a/CIM14/IEC61970/Dynamics/Generators/GenLoad.py
+++ b/CIM14/IEC61970/Dynamics/Generators/GenLoad.py
@@ -62,7 +62,8 @@ class GenLoad(RegulatingCondEq):
         for obj in synchronousMachine0:
             if self not in obj._genLoad0:
                 obj._genLoad0.append(self)
-            self._synchronousMachine0.append(obj)
+            if obj not in self._synchronousMachine0:
+                self._synchronousMachine0.append(obj)
 
     def removesynchronousMachine0(self, *synchronousMachine0):
         for obj in synchronousMachine0:
diff --git a/CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py b/CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py
index d21cb2b..83aeda1 100644
--- a/CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py
+++ b/CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py
@@ -62,7 +62,8 @@ class AggregateLoad(PowerSystemResource):
         for obj in energyConsumer0:
             if self not in obj._aggregateLoad0:
                 obj._aggregateLoad0.append(self)
-            self._energyConsumer0.append(obj)
+            if obj not in self._energyConsumer0:
+                self._energyConsumer0.append(obj)
 
     def removeenergyConsumer0(self, *energyConsumer0):
         for obj in energyConsumer0:
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockReference.py b/CIM14/IEC61970/Dynamics/MetaBlockReference.py
index 94a88d7..915301a 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockReference.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockReference.py
@@ -136,7 +136,8 @@ class MetaBlockReference(IdentifiedObject):
         for obj in blockOutputReference0:
             if self not in obj._metaBlockReference0:
                 obj._metaBlockReference0.append(self)
-            self._blockOutputReference0.append(obj)
+            if obj not in self._blockOutputReference0:
+                self._blockOutputReference0.append(obj)
 
     def removeblockOutputReference0(self, *blockOutputReference0):
         for obj in blockOutputReference0:
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockSignal.py b/CIM14/IEC61970/Dynamics/MetaBlockSignal.py
index d4c685a..c8b3b42 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockSignal.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockSignal.py
@@ -76,7 +76,8 @@ class MetaBlockSignal(IdentifiedObject):
         for obj in metaBlockSignal1:
             if self not in obj._metaBlockSignal:
                 obj._metaBlockSignal.append(self)
-            self._metaBlockSignal1.append(obj)
+            if obj not in self._metaBlockSignal1:
+                self._metaBlockSignal1.append(obj)
 
     def removemetaBlockSignal1(self, *metaBlockSignal1):
         for obj in metaBlockSignal1:
@@ -105,7 +106,8 @@ class MetaBlockSignal(IdentifiedObject):
         for obj in metaBlockSignal:
             if self not in obj._metaBlockSignal1:
                 obj._metaBlockSignal1.append(self)
-            self._metaBlockSignal.append(obj)
+            if obj not in self._metaBlockSignal:
+                self._metaBlockSignal.append(obj)
 
     def removemetaBlockSignal(self, *metaBlockSignal):
         for obj in metaBlockSignal:
diff --git a/CIM14/IEC61970/Dynamics/Motors/MechanicalLoad.py b/CIM14/IEC61970/Dynamics/Motors/MechanicalLoad.py
index 381eece..c391da0 100644
--- a/CIM14/IEC61970/Dynamics/Motors/MechanicalLoad.py
+++ b/CIM14/IEC61970/Dynamics/Motors/MechanicalLoad.py
@@ -62,7 +62,8 @@ class MechanicalLoad(PowerSystemResource):
         for obj in rotatingMachine0:
             if self not in obj._mechanicalLoad0:
                 obj._mechanicalLoad0.append(self)
-            self._rotatingMachine0.append(obj)
+            if obj not in self._rotatingMachine0:
+                self._rotatingMachine0.append(obj)
 
     def removerotatingMachine0(self, *rotatingMachine0):
         for obj in rotatingMachine0:
diff --git a/CIM14/IEC61970/Dynamics/RotatingMachine.py b/CIM14/IEC61970/Dynamics/RotatingMachine.py
index ab61ed8..6713c1b 100644
--- a/CIM14/IEC61970/Dynamics/RotatingMachine.py
+++ b/CIM14/IEC61970/Dynamics/RotatingMachine.py
@@ -94,7 +94,8 @@ class RotatingMachine(RegulatingCondEq):
         for obj in mechanicalLoad0:
             if self not in obj._rotatingMachine0:
                 obj._rotatingMachine0.append(self)
-            self._mechanicalLoad0.append(obj)
+            if obj not in self._mechanicalLoad0:
+                self._mechanicalLoad0.append(obj)
 
     def removemechanicalLoad0(self, *mechanicalLoad0):
         for obj in mechanicalLoad0:
diff --git a/CIM14/IEC61970/Dynamics/SlotReference.py b/CIM14/IEC61970/Dynamics/SlotReference.py
index e7ef22e..2916de1 100644
--- a/CIM14/IEC61970/Dynamics/SlotReference.py
+++ b/CIM14/IEC61970/Dynamics/SlotReference.py
@@ -107,7 +107,8 @@ class SlotReference(IdentifiedObject):
         for obj in compositeModel0:
             if self not in obj._slotReference0:
                 obj._slotReference0.append(self)
-            self._compositeModel0.append(obj)
+            if obj not in self._compositeModel0:
+                self._compositeModel0.append(obj)
 
     def removecompositeModel0(self, *compositeModel0):
         for obj in compositeModel0:
diff --git a/CIM14/IEC61970/Dynamics/TurbineGovernors/GovHydro1.py b/CIM14/IEC61970/Dynamics/TurbineGovernors/GovHydro1.py
index 15465f8..ab80219 100644
--- a/CIM14/IEC61970/Dynamics/TurbineGovernors/GovHydro1.py
+++ b/CIM14/IEC61970/Dynamics/TurbineGovernors/GovHydro1.py
@@ -133,7 +133,8 @@ class GovHydro1(TurbineGovernor):
         for obj in synchronousMachine0:
             if self not in obj._govHydro10:
                 obj._govHydro10.append(self)
-            self._synchronousMachine0.append(obj)
+            if obj not in self._synchronousMachine0:
+                self._synchronousMachine0.append(obj)
 
     def removesynchronousMachine0(self, *synchronousMachine0):
         for obj in synchronousMachine0:
diff --git a/CIM14/IEC61970/Generation/GenerationDynamics/PrimeMover.py b/CIM14/IEC61970/Generation/GenerationDynamics/PrimeMover.py
index 808f247..d44638d 100644
--- a/CIM14/IEC61970/Generation/GenerationDynamics/PrimeMover.py
+++ b/CIM14/IEC61970/Generation/GenerationDynamics/PrimeMover.py
@@ -67,7 +67,8 @@ class PrimeMover(PowerSystemResource):
         for obj in SynchronousMachines:
             if self not in obj._PrimeMovers:
                 obj._PrimeMovers.append(self)
-            self._SynchronousMachines.append(obj)
+            if obj not in self._SynchronousMachines:
+                self._SynchronousMachines.append(obj)
 
     def removeSynchronousMachines(self, *SynchronousMachines):
         for obj in SynchronousMachines:
diff --git a/CIM14/IEC61970/Generation/GenerationDynamics/SteamSupply.py b/CIM14/IEC61970/Generation/GenerationDynamics/SteamSupply.py
index 37edacb..51fc6f8 100644
--- a/CIM14/IEC61970/Generation/GenerationDynamics/SteamSupply.py
+++ b/CIM14/IEC61970/Generation/GenerationDynamics/SteamSupply.py
@@ -67,7 +67,8 @@ class SteamSupply(PowerSystemResource):
         for obj in SteamTurbines:
             if self not in obj._SteamSupplys:
                 obj._SteamSupplys.append(self)
-            self._SteamTurbines.append(obj)
+            if obj not in self._SteamTurbines:
+                self._SteamTurbines.append(obj)
 
     def removeSteamTurbines(self, *SteamTurbines):
         for obj in SteamTurbines:
diff --git a/CIM14/IEC61970/Generation/GenerationDynamics/SteamTurbine.py b/CIM14/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
index 2126846..5f849a9 100644
--- a/CIM14/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
+++ b/CIM14/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
@@ -111,7 +111,8 @@ class SteamTurbine(PrimeMover):
         for obj in SteamSupplys:
             if self not in obj._SteamTurbines:
                 obj._SteamTurbines.append(self)
-            self._SteamSupplys.append(obj)
+            if obj not in self._SteamSupplys:
+                self._SteamSupplys.append(obj)
 
     def removeSteamSupplys(self, *SteamSupplys):
         for obj in SteamSupplys:
diff --git a/CIM14/IEC61970/Meas/Accumulator.py b/CIM14/IEC61970/Meas/Accumulator.py
index 83f3e43..c3a356e 100644
--- a/CIM14/IEC61970/Meas/Accumulator.py
+++ b/CIM14/IEC61970/Meas/Accumulator.py
@@ -71,7 +71,8 @@ class Accumulator(Measurement):
         for obj in LimitSets:
             if self not in obj._Measurements:
                 obj._Measurements.append(self)
-            self._LimitSets.append(obj)
+            if obj not in self._LimitSets:
+                self._LimitSets.append(obj)
 
     def removeLimitSets(self, *LimitSets):
         for obj in LimitSets:
diff --git a/CIM14/IEC61970/Meas/AccumulatorLimitSet.py b/CIM14/IEC61970/Meas/AccumulatorLimitSet.py
index faba8fe..520c5e6 100644
--- a/CIM14/IEC61970/Meas/AccumulatorLimitSet.py
+++ b/CIM14/IEC61970/Meas/AccumulatorLimitSet.py
@@ -67,7 +67,8 @@ class AccumulatorLimitSet(LimitSet):
         for obj in Measurements:
             if self not in obj._LimitSets:
                 obj._LimitSets.append(self)
-            self._Measurements.append(obj)
+            if obj not in self._Measurements:
+                self._Measurements.append(obj)
 
     def removeMeasurements(self, *Measurements):
         for obj in Measurements:
diff --git a/CIM14/IEC61970/Meas/Analog.py b/CIM14/IEC61970/Meas/Analog.py
index 5f246b1..43c45da 100644
--- a/CIM14/IEC61970/Meas/Analog.py
+++ b/CIM14/IEC61970/Meas/Analog.py
@@ -87,7 +87,8 @@ class Analog(Measurement):
         for obj in LimitSets:
             if self not in obj._Measurements:
                 obj._Measurements.append(self)
-            self._LimitSets.append(obj)
+            if obj not in self._LimitSets:
+                self._LimitSets.append(obj)
 
     def removeLimitSets(self, *LimitSets):
         for obj in LimitSets:
diff --git a/CIM14/IEC61970/Meas/AnalogLimitSet.py b/CIM14/IEC61970/Meas/AnalogLimitSet.py
index 7b42553..1a4eb4e 100644
--- a/CIM14/IEC61970/Meas/AnalogLimitSet.py
+++ b/CIM14/IEC61970/Meas/AnalogLimitSet.py
@@ -67,7 +67,8 @@ class AnalogLimitSet(LimitSet):
         for obj in Measurements:
             if self not in obj._LimitSets:
                 obj._LimitSets.append(self)
-            self._Measurements.append(obj)
+            if obj not in self._Measurements:
+                self._Measurements.append(obj)
 
     def removeMeasurements(self, *Measurements):
         for obj in Measurements:
diff --git a/CIM14/IEC61970/Meas/Measurement.py b/CIM14/IEC61970/Meas/Measurement.py
index 4e4ffc9..c759980 100644
--- a/CIM14/IEC61970/Meas/Measurement.py
+++ b/CIM14/IEC61970/Meas/Measurement.py
@@ -107,7 +107,8 @@ class Measurement(IdentifiedObject):
         for obj in Locations:
             if self not in obj._Measurements:
                 obj._Measurements.append(self)
-            self._Locations.append(obj)
+            if obj not in self._Locations:
+                self._Locations.append(obj)
 
     def removeLocations(self, *Locations):
         for obj in Locations:
@@ -208,7 +209,8 @@ class Measurement(IdentifiedObject):
         for obj in Documents:
             if self not in obj._Measurements:
                 obj._Measurements.append(self)
-            self._Documents.append(obj)
+            if obj not in self._Documents:
+                self._Documents.append(obj)
 
     def removeDocuments(self, *Documents):
         for obj in Documents:
diff --git a/CIM14/IEC61970/Outage/SwitchingOperation.py b/CIM14/IEC61970/Outage/SwitchingOperation.py
index abca745..c11e449 100644
--- a/CIM14/IEC61970/Outage/SwitchingOperation.py
+++ b/CIM14/IEC61970/Outage/SwitchingOperation.py
@@ -75,7 +75,8 @@ class SwitchingOperation(IdentifiedObject):
         for obj in Switches:
             if self not in obj._SwitchingOperations:
                 obj._SwitchingOperations.append(self)
-            self._Switches.append(obj)
+            if obj not in self._Switches:
+                self._Switches.append(obj)
 
     def removeSwitches(self, *Switches):
         for obj in Switches:
diff --git a/CIM14/IEC61970/Protection/ProtectionEquipment.py b/CIM14/IEC61970/Protection/ProtectionEquipment.py
index 3303fcc..fbd1689 100644
--- a/CIM14/IEC61970/Protection/ProtectionEquipment.py
+++ b/CIM14/IEC61970/Protection/ProtectionEquipment.py
@@ -111,7 +111,8 @@ class ProtectionEquipment(Equipment):
         for obj in ConductingEquipments:
             if self not in obj._ProtectionEquipments:
                 obj._ProtectionEquipments.append(self)
-            self._ConductingEquipments.append(obj)
+            if obj not in self._ConductingEquipments:
+                self._ConductingEquipments.append(obj)
 
     def removeConductingEquipments(self, *ConductingEquipments):
         for obj in ConductingEquipments:
diff --git a/CIM14/IEC61970/SCADA/CommunicationLink.py b/CIM14/IEC61970/SCADA/CommunicationLink.py
index 5b8ddfe..3b18d0b 100644
--- a/CIM14/IEC61970/SCADA/CommunicationLink.py
+++ b/CIM14/IEC61970/SCADA/CommunicationLink.py
@@ -63,7 +63,8 @@ class CommunicationLink(PowerSystemResource):
         for obj in RemoteUnits:
             if self not in obj._CommunicationLinks:
                 obj._CommunicationLinks.append(self)
-            self._RemoteUnits.append(obj)
+            if obj not in self._RemoteUnits:
+                self._RemoteUnits.append(obj)
 
     def removeRemoteUnits(self, *RemoteUnits):
         for obj in RemoteUnits:
diff --git a/CIM14/IEC61970/SCADA/RemoteUnit.py b/CIM14/IEC61970/SCADA/RemoteUnit.py
index fc35fbc..fb675ad 100644
--- a/CIM14/IEC61970/SCADA/RemoteUnit.py
+++ b/CIM14/IEC61970/SCADA/RemoteUnit.py
@@ -71,7 +71,8 @@ class RemoteUnit(PowerSystemResource):
         for obj in CommunicationLinks:
             if self not in obj._RemoteUnits:
                 obj._RemoteUnits.append(self)
-            self._CommunicationLinks.append(obj)
+            if obj not in self._CommunicationLinks:
+                self._CommunicationLinks.append(obj)
 
     def removeCommunicationLinks(self, *CommunicationLinks):
         for obj in CommunicationLinks:
diff --git a/CIM14/IEC61970/Wires/EnergyConsumer.py b/CIM14/IEC61970/Wires/EnergyConsumer.py
index b93e644..26a483a 100644
--- a/CIM14/IEC61970/Wires/EnergyConsumer.py
+++ b/CIM14/IEC61970/Wires/EnergyConsumer.py
@@ -94,7 +94,8 @@ class EnergyConsumer(ConductingEquipment):
         for obj in aggregateLoad0:
             if self not in obj._energyConsumer0:
                 obj._energyConsumer0.append(self)
-            self._aggregateLoad0.append(obj)
+            if obj not in self._aggregateLoad0:
+                self._aggregateLoad0.append(obj)
 
     def removeaggregateLoad0(self, *aggregateLoad0):
         for obj in aggregateLoad0:
diff --git a/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py b/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py
index b66efcb..80814d2 100644
--- a/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py
+++ b/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py
@@ -97,7 +97,8 @@ class ReactiveCapabilityCurve(Curve):
         for obj in SynchronousMachines:
             if self not in obj._ReactiveCapabilityCurves:
                 obj._ReactiveCapabilityCurves.append(self)
-            self._SynchronousMachines.append(obj)
+            if obj not in self._SynchronousMachines:
+                self._SynchronousMachines.append(obj)
 
     def removeSynchronousMachines(self, *SynchronousMachines):
         for obj in SynchronousMachines:
diff --git a/CIM14/IEC61970/Wires/Switch.py b/CIM14/IEC61970/Wires/Switch.py
index 8aaf527..96cc495 100644
--- a/CIM14/IEC61970/Wires/Switch.py
+++ b/CIM14/IEC61970/Wires/Switch.py
@@ -91,7 +91,8 @@ class Switch(ConductingEquipment):
         for obj in SwitchingOperations:
             if self not in obj._Switches:
                 obj._Switches.append(self)
-            self._SwitchingOperations.append(obj)
+            if obj not in self._SwitchingOperations:
+                self._SwitchingOperations.append(obj)
 
     def removeSwitchingOperations(self, *SwitchingOperations):
         for obj in SwitchingOperations:
@@ -137,7 +138,8 @@ class Switch(ConductingEquipment):
         for obj in ConnectDisconnectFunctions:
             if self not in obj._Switches:
                 obj._Switches.append(self)
-            self._ConnectDisconnectFunctions.append(obj)
+            if obj not in self._ConnectDisconnectFunctions:
+                self._ConnectDisconnectFunctions.append(obj)
 
     def removeConnectDisconnectFunctions(self, *ConnectDisconnectFunctions):
         for obj in ConnectDisconnectFunctions:
diff --git a/CIM14/IEC61970/Wires/SynchronousMachine.py b/CIM14/IEC61970/Wires/SynchronousMachine.py
index aa53168..fdc7abc 100644
--- a/CIM14/IEC61970/Wires/SynchronousMachine.py
+++ b/CIM14/IEC61970/Wires/SynchronousMachine.py
@@ -206,7 +206,8 @@ class SynchronousMachine(RotatingMachine):
         for obj in genLoad0:
             if self not in obj._synchronousMachine0:
                 obj._synchronousMachine0.append(self)
-            self._genLoad0.append(obj)
+            if obj not in self._genLoad0:
+                self._genLoad0.append(obj)
 
     def removegenLoad0(self, *genLoad0):
         for obj in genLoad0:
@@ -268,7 +269,8 @@ class SynchronousMachine(RotatingMachine):
         for obj in govHydro10:
             if self not in obj._synchronousMachine0:
                 obj._synchronousMachine0.append(self)
-            self._govHydro10.append(obj)
+            if obj not in self._govHydro10:
+                self._govHydro10.append(obj)
 
     def removegovHydro10(self, *govHydro10):
         for obj in govHydro10:
@@ -298,7 +300,8 @@ class SynchronousMachine(RotatingMachine):
         for obj in PrimeMovers:
             if self not in obj._SynchronousMachines:
                 obj._SynchronousMachines.append(self)
-            self._PrimeMovers.append(obj)
+            if obj not in self._PrimeMovers:
+                self._PrimeMovers.append(obj)
 
     def removePrimeMovers(self, *PrimeMovers):
         for obj in PrimeMovers:
@@ -344,7 +347,8 @@ class SynchronousMachine(RotatingMachine):
         for obj in genEquiv0:
             if self not in obj._synchronousMachine0:
                 obj._synchronousMachine0.append(self)
-            self._genEquiv0.append(obj)
+            if obj not in self._genEquiv0:
+                self._genEquiv0.append(obj)
 
     def removegenEquiv0(self, *genEquiv0):
         for obj in genEquiv0:
@@ -374,7 +378,8 @@ class SynchronousMachine(RotatingMachine):
         for obj in ReactiveCapabilityCurves:
             if self not in obj._SynchronousMachines:
                 obj._SynchronousMachines.append(self)
-            self._ReactiveCapabilityCurves.append(obj)
+            if obj not in self._ReactiveCapabilityCurves:
+                self._ReactiveCapabilityCurves.append(obj)
 
     def removeReactiveCapabilityCurves(self, *ReactiveCapabilityCurves):
         for obj in ReactiveCapabilityCurves:
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py
index 50f8c95..5ad8554 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py
@@ -97,7 +97,8 @@ class TransformerEnd(IdentifiedObject):
         for obj in ToMeshImpedance:
             if self not in obj._ToTransformerEnd:
                 obj._ToTransformerEnd.append(self)
-            self._ToMeshImpedance.append(obj)
+            if obj not in self._ToMeshImpedance:
+                self._ToMeshImpedance.append(obj)
 
     def removeToMeshImpedance(self, *ToMeshImpedance):
         for obj in ToMeshImpedance:
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerMeshImpedance.py b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerMeshImpedance.py
index 36cc2cb..04601f2 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerMeshImpedance.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerMeshImpedance.py
@@ -100,7 +100,8 @@ class TransformerMeshImpedance(IdentifiedObject):
         for obj in ToTransformerEnd:
             if self not in obj._ToMeshImpedance:
                 obj._ToMeshImpedance.append(self)
-            self._ToTransformerEnd.append(obj)
+            if obj not in self._ToTransformerEnd:
+                self._ToTransformerEnd.append(obj)
 
     def removeToTransformerEnd(self, *ToTransformerEnd):
         for obj in ToTransformerEnd:
diff --git a/CIM15/IEC61968/AssetModels/ShortCircuitTest.py b/CIM15/IEC61968/AssetModels/ShortCircuitTest.py
index 75f5bb6..c8aca5c 100644
--- a/CIM15/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM15/IEC61968/AssetModels/ShortCircuitTest.py
@@ -91,7 +91,8 @@ class ShortCircuitTest(TransformerTest):
         for obj in GroundedEnds:
             if self not in obj._GroundedEndShortCircuitTests:
                 obj._GroundedEndShortCircuitTests.append(self)
-            self._GroundedEnds.append(obj)
+            if obj not in self._GroundedEnds:
+                self._GroundedEnds.append(obj)
 
     def removeGroundedEnds(self, *GroundedEnds):
         for obj in GroundedEnds:
diff --git a/CIM15/IEC61968/AssetModels/TransformerEndInfo.py b/CIM15/IEC61968/AssetModels/TransformerEndInfo.py
index 07a12c1..a3bbc7d 100644
--- a/CIM15/IEC61968/AssetModels/TransformerEndInfo.py
+++ b/CIM15/IEC61968/AssetModels/TransformerEndInfo.py
@@ -201,7 +201,8 @@ class TransformerEndInfo(AssetInfo):
         for obj in ToMeshImpedance:
             if self not in obj._ToTransformerEndInfo:
                 obj._ToTransformerEndInfo.append(self)
-            self._ToMeshImpedance.append(obj)
+            if obj not in self._ToMeshImpedance:
+                self._ToMeshImpedance.append(obj)
 
     def removeToMeshImpedance(self, *ToMeshImpedance):
         for obj in ToMeshImpedance:
@@ -292,7 +293,8 @@ class TransformerEndInfo(AssetInfo):
         for obj in GroundedEndShortCircuitTests:
             if self not in obj._GroundedEnds:
                 obj._GroundedEnds.append(self)
-            self._GroundedEndShortCircuitTests.append(obj)
+            if obj not in self._GroundedEndShortCircuitTests:
+                self._GroundedEndShortCircuitTests.append(obj)
 
     def removeGroundedEndShortCircuitTests(self, *GroundedEndShortCircuitTests):
         for obj in GroundedEndShortCircuitTests:
diff --git a/CIM15/IEC61968/Assets/Asset.py b/CIM15/IEC61968/Assets/Asset.py
index 0084c92..925affb 100644
--- a/CIM15/IEC61968/Assets/Asset.py
+++ b/CIM15/IEC61968/Assets/Asset.py
@@ -228,7 +228,8 @@ class Asset(IdentifiedObject):
         for obj in Mediums:
             if self not in obj._Assets:
                 obj._Assets.append(self)
-            self._Mediums.append(obj)
+            if obj not in self._Mediums:
+                self._Mediums.append(obj)
 
     def removeMediums(self, *Mediums):
         for obj in Mediums:
@@ -257,7 +258,8 @@ class Asset(IdentifiedObject):
         for obj in ErpRecDeliveryItems:
             if self not in obj._Assets:
                 obj._Assets.append(self)
-            self._ErpRecDeliveryItems.append(obj)
+            if obj not in self._ErpRecDeliveryItems:
+                self._ErpRecDeliveryItems.append(obj)
 
     def removeErpRecDeliveryItems(self, *ErpRecDeliveryItems):
         for obj in ErpRecDeliveryItems:
@@ -287,7 +289,8 @@ class Asset(IdentifiedObject):
         for obj in Ratings:
             if self not in obj._RatingAssets:
                 obj._RatingAssets.append(self)
-            self._Ratings.append(obj)
+            if obj not in self._Ratings:
+                self._Ratings.append(obj)
 
     def removeRatings(self, *Ratings):
         for obj in Ratings:
@@ -412,7 +415,8 @@ class Asset(IdentifiedObject):
         for obj in ReliabilityInfos:
             if self not in obj._Assets:
                 obj._Assets.append(self)
-            self._ReliabilityInfos.append(obj)
+            if obj not in self._ReliabilityInfos:
+                self._ReliabilityInfos.append(obj)
 
     def removeReliabilityInfos(self, *ReliabilityInfos):
         for obj in ReliabilityInfos:
@@ -497,7 +501,8 @@ class Asset(IdentifiedObject):
         for obj in ScheduledEvents:
             if self not in obj._Assets:
                 obj._Assets.append(self)
-            self._ScheduledEvents.append(obj)
+            if obj not in self._ScheduledEvents:
+                self._ScheduledEvents.append(obj)
 
     def removeScheduledEvents(self, *ScheduledEvents):
         for obj in ScheduledEvents:
@@ -542,7 +547,8 @@ class Asset(IdentifiedObject):
         for obj in AssetPropertyCurves:
             if self not in obj._Assets:
                 obj._Assets.append(self)
-            self._AssetPropertyCurves.append(obj)
+            if obj not in self._AssetPropertyCurves:
+                self._AssetPropertyCurves.append(obj)
 
     def removeAssetPropertyCurves(self, *AssetPropertyCurves):
         for obj in AssetPropertyCurves:
@@ -593,7 +599,8 @@ class Asset(IdentifiedObject):
         for obj in ActivityRecords:
             if self not in obj._Assets:
                 obj._Assets.append(self)
-            self._ActivityRecords.append(obj)
+            if obj not in self._ActivityRecords:
+                self._ActivityRecords.append(obj)
 
     def removeActivityRecords(self, *ActivityRecords):
         for obj in ActivityRecords:
@@ -643,7 +650,8 @@ class Asset(IdentifiedObject):
         for obj in PowerSystemResources:
             if self not in obj._Assets:
                 obj._Assets.append(self)
-            self._PowerSystemResources.append(obj)
+            if obj not in self._PowerSystemResources:
+                self._PowerSystemResources.append(obj)
 
     def removePowerSystemResources(self, *PowerSystemResources):
         for obj in PowerSystemResources:
@@ -688,7 +696,8 @@ class Asset(IdentifiedObject):
         for obj in Properties:
             if self not in obj._PropertyAssets:
                 obj._PropertyAssets.append(self)
-            self._Properties.append(obj)
+            if obj not in self._Properties:
+                self._Properties.append(obj)
 
     def removeProperties(self, *Properties):
         for obj in Properties:
diff --git a/CIM15/IEC61968/Assets/AssetContainer.py b/CIM15/IEC61968/Assets/AssetContainer.py
index 6133d28..e33d5b2 100644
--- a/CIM15/IEC61968/Assets/AssetContainer.py
+++ b/CIM15/IEC61968/Assets/AssetContainer.py
@@ -113,7 +113,8 @@ class AssetContainer(Asset):
         for obj in LandProperties:
             if self not in obj._AssetContainers:
                 obj._AssetContainers.append(self)
-            self._LandProperties.append(obj)
+            if obj not in self._LandProperties:
+                self._LandProperties.append(obj)
 
     def removeLandProperties(self, *LandProperties):
         for obj in LandProperties:
diff --git a/CIM15/IEC61968/Common/ActivityRecord.py b/CIM15/IEC61968/Common/ActivityRecord.py
index 8f987d7..f622c60 100644
--- a/CIM15/IEC61968/Common/ActivityRecord.py
+++ b/CIM15/IEC61968/Common/ActivityRecord.py
@@ -97,7 +97,8 @@ class ActivityRecord(IdentifiedObject):
         for obj in ErpPersons:
             if self not in obj._ActivityRecords:
                 obj._ActivityRecords.append(self)
-            self._ErpPersons.append(obj)
+            if obj not in self._ErpPersons:
+                self._ErpPersons.append(obj)
 
     def removeErpPersons(self, *ErpPersons):
         for obj in ErpPersons:
@@ -126,7 +127,8 @@ class ActivityRecord(IdentifiedObject):
         for obj in Organisations:
             if self not in obj._ActivityRecords:
                 obj._ActivityRecords.append(self)
-            self._Organisations.append(obj)
+            if obj not in self._Organisations:
+                self._Organisations.append(obj)
 
     def removeOrganisations(self, *Organisations):
         for obj in Organisations:
@@ -156,7 +158,8 @@ class ActivityRecord(IdentifiedObject):
         for obj in Documents:
             if self not in obj._ActivityRecords:
                 obj._ActivityRecords.append(self)
-            self._Documents.append(obj)
+            if obj not in self._Documents:
+                self._Documents.append(obj)
 
     def removeDocuments(self, *Documents):
         for obj in Documents:
@@ -186,7 +189,8 @@ class ActivityRecord(IdentifiedObject):
         for obj in Assets:
             if self not in obj._ActivityRecords:
                 obj._ActivityRecords.append(self)
-            self._Assets.append(obj)
+            if obj not in self._Assets:
+                self._Assets.append(obj)
 
     def removeAssets(self, *Assets):
         for obj in Assets:
diff --git a/CIM15/IEC61968/Common/CoordinateSystem.py b/CIM15/IEC61968/Common/CoordinateSystem.py
index 5521faa..170339a 100644
--- a/CIM15/IEC61968/Common/CoordinateSystem.py
+++ b/CIM15/IEC61968/Common/CoordinateSystem.py
@@ -117,7 +117,8 @@ class CoordinateSystem(IdentifiedObject):
         for obj in GmlDiagramObjects:
             if self not in obj._CoordinateSystems:
                 obj._CoordinateSystems.append(self)
-            self._GmlDiagramObjects.append(obj)
+            if obj not in self._GmlDiagramObjects:
+                self._GmlDiagramObjects.append(obj)
 
     def removeGmlDiagramObjects(self, *GmlDiagramObjects):
         for obj in GmlDiagramObjects:
diff --git a/CIM15/IEC61968/Common/Document.py b/CIM15/IEC61968/Common/Document.py
index 63fb149..1feab36 100644
--- a/CIM15/IEC61968/Common/Document.py
+++ b/CIM15/IEC61968/Common/Document.py
@@ -188,7 +188,8 @@ class Document(IdentifiedObject):
         for obj in NetworkDataSets:
             if self not in obj._Documents:
                 obj._Documents.append(self)
-            self._NetworkDataSets.append(obj)
+            if obj not in self._NetworkDataSets:
+                self._NetworkDataSets.append(obj)
 
     def removeNetworkDataSets(self, *NetworkDataSets):
         for obj in NetworkDataSets:
@@ -238,7 +239,8 @@ class Document(IdentifiedObject):
         for obj in ScheduleParameterInfos:
             if self not in obj._Documents:
                 obj._Documents.append(self)
-            self._ScheduleParameterInfos.append(obj)
+            if obj not in self._ScheduleParameterInfos:
+                self._ScheduleParameterInfos.append(obj)
 
     def removeScheduleParameterInfos(self, *ScheduleParameterInfos):
         for obj in ScheduleParameterInfos:
@@ -289,7 +291,8 @@ class Document(IdentifiedObject):
         for obj in Measurements:
             if self not in obj._Documents:
                 obj._Documents.append(self)
-            self._Measurements.append(obj)
+            if obj not in self._Measurements:
+                self._Measurements.append(obj)
 
     def removeMeasurements(self, *Measurements):
         for obj in Measurements:
@@ -319,7 +322,8 @@ class Document(IdentifiedObject):
         for obj in ActivityRecords:
             if self not in obj._Documents:
                 obj._Documents.append(self)
-            self._ActivityRecords.append(obj)
+            if obj not in self._ActivityRecords:
+                self._ActivityRecords.append(obj)
 
     def removeActivityRecords(self, *ActivityRecords):
         for obj in ActivityRecords:
@@ -348,7 +352,8 @@ class Document(IdentifiedObject):
         for obj in ChangeSets:
             if self not in obj._Documents:
                 obj._Documents.append(self)
-            self._ChangeSets.append(obj)
+            if obj not in self._ChangeSets:
+                self._ChangeSets.append(obj)
 
     def removeChangeSets(self, *ChangeSets):
         for obj in ChangeSets:
diff --git a/CIM15/IEC61968/Common/Location.py b/CIM15/IEC61968/Common/Location.py
index 9368a63..fda69a4 100644
--- a/CIM15/IEC61968/Common/Location.py
+++ b/CIM15/IEC61968/Common/Location.py
@@ -203,7 +203,8 @@ class Location(IdentifiedObject):
         for obj in RedLines:
             if self not in obj._Locations:
                 obj._Locations.append(self)
-            self._RedLines.append(obj)
+            if obj not in self._RedLines:
+                self._RedLines.append(obj)
 
     def removeRedLines(self, *RedLines):
         for obj in RedLines:
@@ -248,7 +249,8 @@ class Location(IdentifiedObject):
         for obj in LandProperties:
             if self not in obj._Locations:
                 obj._Locations.append(self)
-            self._LandProperties.append(obj)
+            if obj not in self._LandProperties:
+                self._LandProperties.append(obj)
 
     def removeLandProperties(self, *LandProperties):
         for obj in LandProperties:
@@ -299,7 +301,8 @@ class Location(IdentifiedObject):
         for obj in Hazards:
             if self not in obj._Locations:
                 obj._Locations.append(self)
-            self._Hazards.append(obj)
+            if obj not in self._Hazards:
+                self._Hazards.append(obj)
 
     def removeHazards(self, *Hazards):
         for obj in Hazards:
@@ -331,7 +334,8 @@ class Location(IdentifiedObject):
         for obj in Crews:
             if self not in obj._Locations:
                 obj._Locations.append(self)
-            self._Crews.append(obj)
+            if obj not in self._Crews:
+                self._Crews.append(obj)
 
     def removeCrews(self, *Crews):
         for obj in Crews:
@@ -406,7 +410,8 @@ class Location(IdentifiedObject):
         for obj in Measurements:
             if self not in obj._Locations:
                 obj._Locations.append(self)
-            self._Measurements.append(obj)
+            if obj not in self._Measurements:
+                self._Measurements.append(obj)
 
     def removeMeasurements(self, *Measurements):
         for obj in Measurements:
@@ -435,7 +440,8 @@ class Location(IdentifiedObject):
         for obj in Routes:
             if self not in obj._Locations:
                 obj._Locations.append(self)
-            self._Routes.append(obj)
+            if obj not in self._Routes:
+                self._Routes.append(obj)
 
     def removeRoutes(self, *Routes):
         for obj in Routes:
@@ -481,7 +487,8 @@ class Location(IdentifiedObject):
         for obj in ErpOrganisations:
             if self not in obj._Locations:
                 obj._Locations.append(self)
-            self._ErpOrganisations.append(obj)
+            if obj not in self._ErpOrganisations:
+                self._ErpOrganisations.append(obj)
 
     def removeErpOrganisations(self, *ErpOrganisations):
         for obj in ErpOrganisations:
diff --git a/CIM15/IEC61968/Common/Organisation.py b/CIM15/IEC61968/Common/Organisation.py
index 876db7f..f9b894c 100644
--- a/CIM15/IEC61968/Common/Organisation.py
+++ b/CIM15/IEC61968/Common/Organisation.py
@@ -92,7 +92,8 @@ class Organisation(IdentifiedObject):
         for obj in BusinessRoles:
             if self not in obj._Organisations:
                 obj._Organisations.append(self)
-            self._BusinessRoles.append(obj)
+            if obj not in self._BusinessRoles:
+                self._BusinessRoles.append(obj)
 
     def removeBusinessRoles(self, *BusinessRoles):
         for obj in BusinessRoles:
diff --git a/CIM15/IEC61968/Common/UserAttribute.py b/CIM15/IEC61968/Common/UserAttribute.py
index cc5851e..6b60431 100644
--- a/CIM15/IEC61968/Common/UserAttribute.py
+++ b/CIM15/IEC61968/Common/UserAttribute.py
@@ -106,7 +106,8 @@ class UserAttribute(Element):
         for obj in ErpLedgerEntries:
             if self not in obj._UserAttributes:
                 obj._UserAttributes.append(self)
-            self._ErpLedgerEntries.append(obj)
+            if obj not in self._ErpLedgerEntries:
+                self._ErpLedgerEntries.append(obj)
 
     def removeErpLedgerEntries(self, *ErpLedgerEntries):
         for obj in ErpLedgerEntries:
@@ -135,7 +136,8 @@ class UserAttribute(Element):
         for obj in ProcedureDataSets:
             if self not in obj._Properties:
                 obj._Properties.append(self)
-            self._ProcedureDataSets.append(obj)
+            if obj not in self._ProcedureDataSets:
+                self._ProcedureDataSets.append(obj)
 
     def removeProcedureDataSets(self, *ProcedureDataSets):
         for obj in ProcedureDataSets:
@@ -213,7 +215,8 @@ class UserAttribute(Element):
         for obj in PropertyAssets:
             if self not in obj._Properties:
                 obj._Properties.append(self)
-            self._PropertyAssets.append(obj)
+            if obj not in self._PropertyAssets:
+                self._PropertyAssets.append(obj)
 
     def removePropertyAssets(self, *PropertyAssets):
         for obj in PropertyAssets:
@@ -258,7 +261,8 @@ class UserAttribute(Element):
         for obj in ErpInvoiceLineItems:
             if self not in obj._UserAttributes:
                 obj._UserAttributes.append(self)
-            self._ErpInvoiceLineItems.append(obj)
+            if obj not in self._ErpInvoiceLineItems:
+                self._ErpInvoiceLineItems.append(obj)
 
     def removeErpInvoiceLineItems(self, *ErpInvoiceLineItems):
         for obj in ErpInvoiceLineItems:
@@ -287,7 +291,8 @@ class UserAttribute(Element):
         for obj in RatingAssets:
             if self not in obj._Ratings:
                 obj._Ratings.append(self)
-            self._RatingAssets.append(obj)
+            if obj not in self._RatingAssets:
+                self._RatingAssets.append(obj)
 
     def removeRatingAssets(self, *RatingAssets):
         for obj in RatingAssets:
diff --git a/CIM15/IEC61968/Customers/Customer.py b/CIM15/IEC61968/Customers/Customer.py
index 61682fb..4aacb88 100644
--- a/CIM15/IEC61968/Customers/Customer.py
+++ b/CIM15/IEC61968/Customers/Customer.py
@@ -171,7 +171,8 @@ class Customer(Organisation):
         for obj in Works:
             if self not in obj._Customers:
                 obj._Customers.append(self)
-            self._Works.append(obj)
+            if obj not in self._Works:
+                self._Works.append(obj)
 
     def removeWorks(self, *Works):
         for obj in Works:
@@ -219,7 +220,8 @@ class Customer(Organisation):
         for obj in OutageNotifications:
             if self not in obj._CustomerDatas:
                 obj._CustomerDatas.append(self)
-            self._OutageNotifications.append(obj)
+            if obj not in self._OutageNotifications:
+                self._OutageNotifications.append(obj)
 
     def removeOutageNotifications(self, *OutageNotifications):
         for obj in OutageNotifications:
diff --git a/CIM15/IEC61968/Customers/CustomerAgreement.py b/CIM15/IEC61968/Customers/CustomerAgreement.py
index cde11ea..3646d2e 100644
--- a/CIM15/IEC61968/Customers/CustomerAgreement.py
+++ b/CIM15/IEC61968/Customers/CustomerAgreement.py
@@ -119,7 +119,8 @@ class CustomerAgreement(Agreement):
         for obj in PricingStructures:
             if self not in obj._CustomerAgreements:
                 obj._CustomerAgreements.append(self)
-            self._PricingStructures.append(obj)
+            if obj not in self._PricingStructures:
+                self._PricingStructures.append(obj)
 
     def removePricingStructures(self, *PricingStructures):
         for obj in PricingStructures:
@@ -225,7 +226,8 @@ class CustomerAgreement(Agreement):
         for obj in Equipments:
             if self not in obj._CustomerAgreements:
                 obj._CustomerAgreements.append(self)
-            self._Equipments.append(obj)
+            if obj not in self._Equipments:
+                self._Equipments.append(obj)
 
     def removeEquipments(self, *Equipments):
         for obj in Equipments:
@@ -272,7 +274,8 @@ class CustomerAgreement(Agreement):
         for obj in ServiceLocations:
             if self not in obj._CustomerAgreements:
                 obj._CustomerAgreements.append(self)
-            self._ServiceLocations.append(obj)
+            if obj not in self._ServiceLocations:
+                self._ServiceLocations.append(obj)
 
     def removeServiceLocations(self, *ServiceLocations):
         for obj in ServiceLocations:
diff --git a/CIM15/IEC61968/Customers/PricingStructure.py b/CIM15/IEC61968/Customers/PricingStructure.py
index f1dcf59..20cd228 100644
--- a/CIM15/IEC61968/Customers/PricingStructure.py
+++ b/CIM15/IEC61968/Customers/PricingStructure.py
@@ -120,7 +120,8 @@ class PricingStructure(Document):
         for obj in CustomerAgreements:
             if self not in obj._PricingStructures:
                 obj._PricingStructures.append(self)
-            self._CustomerAgreements.append(obj)
+            if obj not in self._CustomerAgreements:
+                self._CustomerAgreements.append(obj)
 
     def removeCustomerAgreements(self, *CustomerAgreements):
         for obj in CustomerAgreements:
@@ -150,7 +151,8 @@ class PricingStructure(Document):
         for obj in ServiceDeliveryPoints:
             if self not in obj._PricingStructures:
                 obj._PricingStructures.append(self)
-            self._ServiceDeliveryPoints.append(obj)
+            if obj not in self._ServiceDeliveryPoints:
+                self._ServiceDeliveryPoints.append(obj)
 
     def removeServiceDeliveryPoints(self, *ServiceDeliveryPoints):
         for obj in ServiceDeliveryPoints:
@@ -180,7 +182,8 @@ class PricingStructure(Document):
         for obj in Tariffs:
             if self not in obj._PricingStructures:
                 obj._PricingStructures.append(self)
-            self._Tariffs.append(obj)
+            if obj not in self._Tariffs:
+                self._Tariffs.append(obj)
 
     def removeTariffs(self, *Tariffs):
         for obj in Tariffs:
diff --git a/CIM15/IEC61968/Customers/ServiceLocation.py b/CIM15/IEC61968/Customers/ServiceLocation.py
index 8c518b3..b1dce7b 100644
--- a/CIM15/IEC61968/Customers/ServiceLocation.py
+++ b/CIM15/IEC61968/Customers/ServiceLocation.py
@@ -152,7 +152,8 @@ class ServiceLocation(Location):
         for obj in CustomerAgreements:
             if self not in obj._ServiceLocations:
                 obj._ServiceLocations.append(self)
-            self._CustomerAgreements.append(obj)
+            if obj not in self._CustomerAgreements:
+                self._CustomerAgreements.append(obj)
 
     def removeCustomerAgreements(self, *CustomerAgreements):
         for obj in CustomerAgreements:
diff --git a/CIM15/IEC61968/Customers/Tariff.py b/CIM15/IEC61968/Customers/Tariff.py
index 890c7f0..a7a8485 100644
--- a/CIM15/IEC61968/Customers/Tariff.py
+++ b/CIM15/IEC61968/Customers/Tariff.py
@@ -75,7 +75,8 @@ class Tariff(Document):
         for obj in PricingStructures:
             if self not in obj._Tariffs:
                 obj._Tariffs.append(self)
-            self._PricingStructures.append(obj)
+            if obj not in self._PricingStructures:
+                self._PricingStructures.append(obj)
 
     def removePricingStructures(self, *PricingStructures):
         for obj in PricingStructures:
@@ -105,7 +106,8 @@ class Tariff(Document):
         for obj in TariffProfiles:
             if self not in obj._Tariffs:
                 obj._Tariffs.append(self)
-            self._TariffProfiles.append(obj)
+            if obj not in self._TariffProfiles:
+                self._TariffProfiles.append(obj)
 
     def removeTariffProfiles(self, *TariffProfiles):
         for obj in TariffProfiles:
diff --git a/CIM15/IEC61968/LoadControl/ConnectDisconnectFunction.py b/CIM15/IEC61968/LoadControl/ConnectDisconnectFunction.py
index 986a173..6908591 100644
--- a/CIM15/IEC61968/LoadControl/ConnectDisconnectFunction.py
+++ b/CIM15/IEC61968/LoadControl/ConnectDisconnectFunction.py
@@ -96,7 +96,8 @@ class ConnectDisconnectFunction(EndDeviceFunction):
         for obj in Switches:
             if self not in obj._ConnectDisconnectFunctions:
                 obj._ConnectDisconnectFunctions.append(self)
-            self._Switches.append(obj)
+            if obj not in self._Switches:
+                self._Switches.append(obj)
 
     def removeSwitches(self, *Switches):
         for obj in Switches:
diff --git a/CIM15/IEC61968/Metering/EndDevice.py b/CIM15/IEC61968/Metering/EndDevice.py
index bf1b46a..723f55b 100644
--- a/CIM15/IEC61968/Metering/EndDevice.py
+++ b/CIM15/IEC61968/Metering/EndDevice.py
@@ -207,7 +207,8 @@ class EndDevice(AssetContainer):
         for obj in EndDeviceGroups:
             if self not in obj._EndDevices:
                 obj._EndDevices.append(self)
-            self._EndDeviceGroups.append(obj)
+            if obj not in self._EndDeviceGroups:
+                self._EndDeviceGroups.append(obj)
 
     def removeEndDeviceGroups(self, *EndDeviceGroups):
         for obj in EndDeviceGroups:
diff --git a/CIM15/IEC61968/Metering/EndDeviceGroup.py b/CIM15/IEC61968/Metering/EndDeviceGroup.py
index 28c0923..1b61dcb 100644
--- a/CIM15/IEC61968/Metering/EndDeviceGroup.py
+++ b/CIM15/IEC61968/Metering/EndDeviceGroup.py
@@ -97,7 +97,8 @@ class EndDeviceGroup(IdentifiedObject):
         for obj in EndDevices:
             if self not in obj._EndDeviceGroups:
                 obj._EndDeviceGroups.append(self)
-            self._EndDevices.append(obj)
+            if obj not in self._EndDevices:
+                self._EndDevices.append(obj)
 
     def removeEndDevices(self, *EndDevices):
         for obj in EndDevices:
diff --git a/CIM15/IEC61968/Metering/IntervalBlock.py b/CIM15/IEC61968/Metering/IntervalBlock.py
index 60e46a6..7799bcf 100644
--- a/CIM15/IEC61968/Metering/IntervalBlock.py
+++ b/CIM15/IEC61968/Metering/IntervalBlock.py
@@ -92,7 +92,8 @@ class IntervalBlock(Element):
         for obj in IntervalReadings:
             if self not in obj._IntervalBlocks:
                 obj._IntervalBlocks.append(self)
-            self._IntervalReadings.append(obj)
+            if obj not in self._IntervalReadings:
+                self._IntervalReadings.append(obj)
 
     def removeIntervalReadings(self, *IntervalReadings):
         for obj in IntervalReadings:
diff --git a/CIM15/IEC61968/Metering/IntervalReading.py b/CIM15/IEC61968/Metering/IntervalReading.py
index ecd5c09..1924063 100644
--- a/CIM15/IEC61968/Metering/IntervalReading.py
+++ b/CIM15/IEC61968/Metering/IntervalReading.py
@@ -71,7 +71,8 @@ class IntervalReading(MeasurementValue):
         for obj in IntervalBlocks:
             if self not in obj._IntervalReadings:
                 obj._IntervalReadings.append(self)
-            self._IntervalBlocks.append(obj)
+            if obj not in self._IntervalBlocks:
+                self._IntervalBlocks.append(obj)
 
     def removeIntervalBlocks(self, *IntervalBlocks):
         for obj in IntervalBlocks:
diff --git a/CIM15/IEC61968/Metering/MeterReading.py b/CIM15/IEC61968/Metering/MeterReading.py
index 7928c9b..6778d8f 100644
--- a/CIM15/IEC61968/Metering/MeterReading.py
+++ b/CIM15/IEC61968/Metering/MeterReading.py
@@ -128,7 +128,8 @@ class MeterReading(IdentifiedObject):
         for obj in Readings:
             if self not in obj._MeterReadings:
                 obj._MeterReadings.append(self)
-            self._Readings.append(obj)
+            if obj not in self._Readings:
+                self._Readings.append(obj)
 
     def removeReadings(self, *Readings):
         for obj in Readings:
diff --git a/CIM15/IEC61968/Metering/Reading.py b/CIM15/IEC61968/Metering/Reading.py
index 00ca6a8..34b62a3 100644
--- a/CIM15/IEC61968/Metering/Reading.py
+++ b/CIM15/IEC61968/Metering/Reading.py
@@ -92,7 +92,8 @@ class Reading(MeasurementValue):
         for obj in MeterReadings:
             if self not in obj._Readings:
                 obj._Readings.append(self)
-            self._MeterReadings.append(obj)
+            if obj not in self._MeterReadings:
+                self._MeterReadings.append(obj)
 
     def removeMeterReadings(self, *MeterReadings):
         for obj in MeterReadings:
diff --git a/CIM15/IEC61968/Metering/SDPLocation.py b/CIM15/IEC61968/Metering/SDPLocation.py
index a600343..03e5af3 100644
--- a/CIM15/IEC61968/Metering/SDPLocation.py
+++ b/CIM15/IEC61968/Metering/SDPLocation.py
@@ -79,7 +79,8 @@ class SDPLocation(Location):
         for obj in ServiceDeliveryPoints:
             if self not in obj._SDPLocations:
                 obj._SDPLocations.append(self)
-            self._ServiceDeliveryPoints.append(obj)
+            if obj not in self._ServiceDeliveryPoints:
+                self._ServiceDeliveryPoints.append(obj)
 
     def removeServiceDeliveryPoints(self, *ServiceDeliveryPoints):
         for obj in ServiceDeliveryPoints:
diff --git a/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py b/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py
index bdac267..febfcea 100644
--- a/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py
+++ b/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py
@@ -139,7 +139,8 @@ class ServiceDeliveryPoint(IdentifiedObject):
         for obj in SDPLocations:
             if self not in obj._ServiceDeliveryPoints:
                 obj._ServiceDeliveryPoints.append(self)
-            self._SDPLocations.append(obj)
+            if obj not in self._SDPLocations:
+                self._SDPLocations.append(obj)
 
     def removeSDPLocations(self, *SDPLocations):
         for obj in SDPLocations:
@@ -247,7 +248,8 @@ class ServiceDeliveryPoint(IdentifiedObject):
         for obj in PricingStructures:
             if self not in obj._ServiceDeliveryPoints:
                 obj._ServiceDeliveryPoints.append(self)
-            self._PricingStructures.append(obj)
+            if obj not in self._PricingStructures:
+                self._PricingStructures.append(obj)
 
     def removePricingStructures(self, *PricingStructures):
         for obj in PricingStructures:
diff --git a/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py b/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py
index 06e474e..45202e4 100644
--- a/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py
+++ b/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py
@@ -113,7 +113,8 @@ class AuxiliaryAccount(Document):
         for obj in Charges:
             if self not in obj._AuxiliaryAccounts:
                 obj._AuxiliaryAccounts.append(self)
-            self._Charges.append(obj)
+            if obj not in self._Charges:
+                self._Charges.append(obj)
 
     def removeCharges(self, *Charges):
         for obj in Charges:
diff --git a/CIM15/IEC61968/PaymentMetering/Charge.py b/CIM15/IEC61968/PaymentMetering/Charge.py
index 2ab1b27..df9c72e 100644
--- a/CIM15/IEC61968/PaymentMetering/Charge.py
+++ b/CIM15/IEC61968/PaymentMetering/Charge.py
@@ -90,7 +90,8 @@ class Charge(IdentifiedObject):
         for obj in ConsumptionTariffIntervals:
             if self not in obj._Charges:
                 obj._Charges.append(self)
-            self._ConsumptionTariffIntervals.append(obj)
+            if obj not in self._ConsumptionTariffIntervals:
+                self._ConsumptionTariffIntervals.append(obj)
 
     def removeConsumptionTariffIntervals(self, *ConsumptionTariffIntervals):
         for obj in ConsumptionTariffIntervals:
@@ -120,7 +121,8 @@ class Charge(IdentifiedObject):
         for obj in TimeTariffIntervals:
             if self not in obj._Charges:
                 obj._Charges.append(self)
-            self._TimeTariffIntervals.append(obj)
+            if obj not in self._TimeTariffIntervals:
+                self._TimeTariffIntervals.append(obj)
 
     def removeTimeTariffIntervals(self, *TimeTariffIntervals):
         for obj in TimeTariffIntervals:
@@ -150,7 +152,8 @@ class Charge(IdentifiedObject):
         for obj in AuxiliaryAccounts:
             if self not in obj._Charges:
                 obj._Charges.append(self)
-            self._AuxiliaryAccounts.append(obj)
+            if obj not in self._AuxiliaryAccounts:
+                self._AuxiliaryAccounts.append(obj)
 
     def removeAuxiliaryAccounts(self, *AuxiliaryAccounts):
         for obj in AuxiliaryAccounts:
diff --git a/CIM15/IEC61968/PaymentMetering/ConsumptionTariffInterval.py b/CIM15/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
index 3255f5f..97ebe07 100644
--- a/CIM15/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
+++ b/CIM15/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
@@ -79,7 +79,8 @@ class ConsumptionTariffInterval(Element):
         for obj in Charges:
             if self not in obj._ConsumptionTariffIntervals:
                 obj._ConsumptionTariffIntervals.append(self)
-            self._Charges.append(obj)
+            if obj not in self._Charges:
+                self._Charges.append(obj)
 
     def removeCharges(self, *Charges):
         for obj in Charges:
@@ -109,7 +110,8 @@ class ConsumptionTariffInterval(Element):
         for obj in TariffProfiles:
             if self not in obj._ConsumptionTariffIntervals:
                 obj._ConsumptionTariffIntervals.append(self)
-            self._TariffProfiles.append(obj)
+            if obj not in self._TariffProfiles:
+                self._TariffProfiles.append(obj)
 
     def removeTariffProfiles(self, *TariffProfiles):
         for obj in TariffProfiles:
@@ -139,7 +141,8 @@ class ConsumptionTariffInterval(Element):
         for obj in TouTariffIntervals:
             if self not in obj._ConsumptionTariffIntervals:
                 obj._ConsumptionTariffIntervals.append(self)
-            self._TouTariffIntervals.append(obj)
+            if obj not in self._TouTariffIntervals:
+                self._TouTariffIntervals.append(obj)
 
     def removeTouTariffIntervals(self, *TouTariffIntervals):
         for obj in TouTariffIntervals:
diff --git a/CIM15/IEC61968/PaymentMetering/MerchantAccount.py b/CIM15/IEC61968/PaymentMetering/MerchantAccount.py
index f1e6f94..a449067 100644
--- a/CIM15/IEC61968/PaymentMetering/MerchantAccount.py
+++ b/CIM15/IEC61968/PaymentMetering/MerchantAccount.py
@@ -96,7 +96,8 @@ class MerchantAccount(Document):
         for obj in Transactors:
             if self not in obj._MerchantAccounts:
                 obj._MerchantAccounts.append(self)
-            self._Transactors.append(obj)
+            if obj not in self._Transactors:
+                self._Transactors.append(obj)
 
     def removeTransactors(self, *Transactors):
         for obj in Transactors:
diff --git a/CIM15/IEC61968/PaymentMetering/TariffProfile.py b/CIM15/IEC61968/PaymentMetering/TariffProfile.py
index c956390..f1adebf 100644
--- a/CIM15/IEC61968/PaymentMetering/TariffProfile.py
+++ b/CIM15/IEC61968/PaymentMetering/TariffProfile.py
@@ -75,7 +75,8 @@ class TariffProfile(Document):
         for obj in Tariffs:
             if self not in obj._TariffProfiles:
                 obj._TariffProfiles.append(self)
-            self._Tariffs.append(obj)
+            if obj not in self._Tariffs:
+                self._Tariffs.append(obj)
 
     def removeTariffs(self, *Tariffs):
         for obj in Tariffs:
@@ -105,7 +106,8 @@ class TariffProfile(Document):
         for obj in ConsumptionTariffIntervals:
             if self not in obj._TariffProfiles:
                 obj._TariffProfiles.append(self)
-            self._ConsumptionTariffIntervals.append(obj)
+            if obj not in self._ConsumptionTariffIntervals:
+                self._ConsumptionTariffIntervals.append(obj)
 
     def removeConsumptionTariffIntervals(self, *ConsumptionTariffIntervals):
         for obj in ConsumptionTariffIntervals:
@@ -135,7 +137,8 @@ class TariffProfile(Document):
         for obj in TimeTariffIntervals:
             if self not in obj._TariffProfiles:
                 obj._TariffProfiles.append(self)
-            self._TimeTariffIntervals.append(obj)
+            if obj not in self._TimeTariffIntervals:
+                self._TimeTariffIntervals.append(obj)
 
     def removeTimeTariffIntervals(self, *TimeTariffIntervals):
         for obj in TimeTariffIntervals:
diff --git a/CIM15/IEC61968/PaymentMetering/TimeTariffInterval.py b/CIM15/IEC61968/PaymentMetering/TimeTariffInterval.py
index 54f3865..6e10355 100644
--- a/CIM15/IEC61968/PaymentMetering/TimeTariffInterval.py
+++ b/CIM15/IEC61968/PaymentMetering/TimeTariffInterval.py
@@ -79,7 +79,8 @@ class TimeTariffInterval(Element):
         for obj in ConsumptionTariffIntervals:
             if self not in obj._TouTariffIntervals:
                 obj._TouTariffIntervals.append(self)
-            self._ConsumptionTariffIntervals.append(obj)
+            if obj not in self._ConsumptionTariffIntervals:
+                self._ConsumptionTariffIntervals.append(obj)
 
     def removeConsumptionTariffIntervals(self, *ConsumptionTariffIntervals):
         for obj in ConsumptionTariffIntervals:
@@ -109,7 +110,8 @@ class TimeTariffInterval(Element):
         for obj in TariffProfiles:
             if self not in obj._TimeTariffIntervals:
                 obj._TimeTariffIntervals.append(self)
-            self._TariffProfiles.append(obj)
+            if obj not in self._TariffProfiles:
+                self._TariffProfiles.append(obj)
 
     def removeTariffProfiles(self, *TariffProfiles):
         for obj in TariffProfiles:
@@ -139,7 +141,8 @@ class TimeTariffInterval(Element):
         for obj in Charges:
             if self not in obj._TimeTariffIntervals:
                 obj._TimeTariffIntervals.append(self)
-            self._Charges.append(obj)
+            if obj not in self._Charges:
+                self._Charges.append(obj)
 
     def removeCharges(self, *Charges):
         for obj in Charges:
diff --git a/CIM15/IEC61968/PaymentMetering/Transactor.py b/CIM15/IEC61968/PaymentMetering/Transactor.py
index 1451c63..cad91e7 100644
--- a/CIM15/IEC61968/PaymentMetering/Transactor.py
+++ b/CIM15/IEC61968/PaymentMetering/Transactor.py
@@ -63,7 +63,8 @@ class Transactor(IdentifiedObject):
         for obj in MerchantAccounts:
             if self not in obj._Transactors:
                 obj._Transactors.append(self)
-            self._MerchantAccounts.append(obj)
+            if obj not in self._MerchantAccounts:
+                self._MerchantAccounts.append(obj)
 
     def removeMerchantAccounts(self, *MerchantAccounts):
         for obj in MerchantAccounts:
diff --git a/CIM15/IEC61968/Work/Work.py b/CIM15/IEC61968/Work/Work.py
index 15d9195..c0a1350 100644
--- a/CIM15/IEC61968/Work/Work.py
+++ b/CIM15/IEC61968/Work/Work.py
@@ -131,7 +131,8 @@ class Work(Document):
         for obj in WorkCostDetails:
             if self not in obj._Works:
                 obj._Works.append(self)
-            self._WorkCostDetails.append(obj)
+            if obj not in self._WorkCostDetails:
+                self._WorkCostDetails.append(obj)
 
     def removeWorkCostDetails(self, *WorkCostDetails):
         for obj in WorkCostDetails:
@@ -283,7 +284,8 @@ class Work(Document):
         for obj in Customers:
             if self not in obj._Works:
                 obj._Works.append(self)
-            self._Customers.append(obj)
+            if obj not in self._Customers:
+                self._Customers.append(obj)
 
     def removeCustomers(self, *Customers):
         for obj in Customers:
diff --git a/CIM15/IEC61970/Core/ConductingEquipment.py b/CIM15/IEC61970/Core/ConductingEquipment.py
index 8ce4b16..896bf2d 100644
--- a/CIM15/IEC61970/Core/ConductingEquipment.py
+++ b/CIM15/IEC61970/Core/ConductingEquipment.py
@@ -122,7 +122,8 @@ class ConductingEquipment(Equipment):
         for obj in ProtectionEquipments:
             if self not in obj._ConductingEquipments:
                 obj._ConductingEquipments.append(self)
-            self._ProtectionEquipments.append(obj)
+            if obj not in self._ProtectionEquipments:
+                self._ProtectionEquipments.append(obj)
 
     def removeProtectionEquipments(self, *ProtectionEquipments):
         for obj in ProtectionEquipments:
diff --git a/CIM15/IEC61970/Core/Equipment.py b/CIM15/IEC61970/Core/Equipment.py
index 4a0815b..054f5c8 100644
--- a/CIM15/IEC61970/Core/Equipment.py
+++ b/CIM15/IEC61970/Core/Equipment.py
@@ -105,7 +105,8 @@ class Equipment(PowerSystemResource):
         for obj in CustomerAgreements:
             if self not in obj._Equipments:
                 obj._Equipments.append(self)
-            self._CustomerAgreements.append(obj)
+            if obj not in self._CustomerAgreements:
+                self._CustomerAgreements.append(obj)
 
     def removeCustomerAgreements(self, *CustomerAgreements):
         for obj in CustomerAgreements:
diff --git a/CIM15/IEC61970/Core/PowerSystemResource.py b/CIM15/IEC61970/Core/PowerSystemResource.py
index a7a25f5..51a74c5 100644
--- a/CIM15/IEC61970/Core/PowerSystemResource.py
+++ b/CIM15/IEC61970/Core/PowerSystemResource.py
@@ -139,7 +139,8 @@ class PowerSystemResource(IdentifiedObject):
         for obj in ScheduleSteps:
             if self not in obj._PowerSystemResources:
                 obj._PowerSystemResources.append(self)
-            self._ScheduleSteps.append(obj)
+            if obj not in self._ScheduleSteps:
+                self._ScheduleSteps.append(obj)
 
     def removeScheduleSteps(self, *ScheduleSteps):
         for obj in ScheduleSteps:
@@ -232,7 +233,8 @@ class PowerSystemResource(IdentifiedObject):
         for obj in PsrLists:
             if self not in obj._PowerSystemResources:
                 obj._PowerSystemResources.append(self)
-            self._PsrLists.append(obj)
+            if obj not in self._PsrLists:
+                self._PsrLists.append(obj)
 
     def removePsrLists(self, *PsrLists):
         for obj in PsrLists:
@@ -284,7 +286,8 @@ class PowerSystemResource(IdentifiedObject):
         for obj in ReportingGroup:
             if self not in obj._PowerSystemResource:
                 obj._PowerSystemResource.append(self)
-            self._ReportingGroup.append(obj)
+            if obj not in self._ReportingGroup:
+                self._ReportingGroup.append(obj)
 
     def removeReportingGroup(self, *ReportingGroup):
         for obj in ReportingGroup:
@@ -331,7 +334,8 @@ class PowerSystemResource(IdentifiedObject):
         for obj in Assets:
             if self not in obj._PowerSystemResources:
                 obj._PowerSystemResources.append(self)
-            self._Assets.append(obj)
+            if obj not in self._Assets:
+                self._Assets.append(obj)
 
     def removeAssets(self, *Assets):
         for obj in Assets:
@@ -420,7 +424,8 @@ class PowerSystemResource(IdentifiedObject):
         for obj in NetworkDataSets:
             if self not in obj._PowerSystemResources:
                 obj._PowerSystemResources.append(self)
-            self._NetworkDataSets.append(obj)
+            if obj not in self._NetworkDataSets:
+                self._NetworkDataSets.append(obj)
 
     def removeNetworkDataSets(self, *NetworkDataSets):
         for obj in NetworkDataSets:
diff --git a/CIM15/IEC61970/Core/PsrList.py b/CIM15/IEC61970/Core/PsrList.py
index 46544f4..de18afc 100644
--- a/CIM15/IEC61970/Core/PsrList.py
+++ b/CIM15/IEC61970/Core/PsrList.py
@@ -66,7 +66,8 @@ class PsrList(IdentifiedObject):
         for obj in PowerSystemResources:
             if self not in obj._PsrLists:
                 obj._PsrLists.append(self)
-            self._PowerSystemResources.append(obj)
+            if obj not in self._PowerSystemResources:
+                self._PowerSystemResources.append(obj)
 
     def removePowerSystemResources(self, *PowerSystemResources):
         for obj in PowerSystemResources:
diff --git a/CIM15/IEC61970/Core/ReportingGroup.py b/CIM15/IEC61970/Core/ReportingGroup.py
index 3e77d7a..2b92b3d 100644
--- a/CIM15/IEC61970/Core/ReportingGroup.py
+++ b/CIM15/IEC61970/Core/ReportingGroup.py
@@ -136,7 +136,8 @@ class ReportingGroup(IdentifiedObject):
         for obj in PowerSystemResource:
             if self not in obj._ReportingGroup:
                 obj._ReportingGroup.append(self)
-            self._PowerSystemResource.append(obj)
+            if obj not in self._PowerSystemResource:
+                self._PowerSystemResource.append(obj)
 
     def removePowerSystemResource(self, *PowerSystemResource):
         for obj in PowerSystemResource:
diff --git a/CIM15/IEC61970/Generation/GenerationDynamics/PrimeMover.py b/CIM15/IEC61970/Generation/GenerationDynamics/PrimeMover.py
index adb378f..9375b7d 100644
--- a/CIM15/IEC61970/Generation/GenerationDynamics/PrimeMover.py
+++ b/CIM15/IEC61970/Generation/GenerationDynamics/PrimeMover.py
@@ -67,7 +67,8 @@ class PrimeMover(PowerSystemResource):
         for obj in SynchronousMachines:
             if self not in obj._PrimeMovers:
                 obj._PrimeMovers.append(self)
-            self._SynchronousMachines.append(obj)
+            if obj not in self._SynchronousMachines:
+                self._SynchronousMachines.append(obj)
 
     def removeSynchronousMachines(self, *SynchronousMachines):
         for obj in SynchronousMachines:
diff --git a/CIM15/IEC61970/Generation/GenerationDynamics/SteamSupply.py b/CIM15/IEC61970/Generation/GenerationDynamics/SteamSupply.py
index 74d7339..9e3b1a4 100644
--- a/CIM15/IEC61970/Generation/GenerationDynamics/SteamSupply.py
+++ b/CIM15/IEC61970/Generation/GenerationDynamics/SteamSupply.py
@@ -67,7 +67,8 @@ class SteamSupply(PowerSystemResource):
         for obj in SteamTurbines:
             if self not in obj._SteamSupplys:
                 obj._SteamSupplys.append(self)
-            self._SteamTurbines.append(obj)
+            if obj not in self._SteamTurbines:
+                self._SteamTurbines.append(obj)
 
     def removeSteamTurbines(self, *SteamTurbines):
         for obj in SteamTurbines:
diff --git a/CIM15/IEC61970/Generation/GenerationDynamics/SteamTurbine.py b/CIM15/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
index 09ee023..221cb99 100644
--- a/CIM15/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
+++ b/CIM15/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
@@ -111,7 +111,8 @@ class SteamTurbine(PrimeMover):
         for obj in SteamSupplys:
             if self not in obj._SteamTurbines:
                 obj._SteamTurbines.append(self)
-            self._SteamSupplys.append(obj)
+            if obj not in self._SteamSupplys:
+                self._SteamSupplys.append(obj)
 
     def removeSteamSupplys(self, *SteamSupplys):
         for obj in SteamSupplys:
diff --git a/CIM15/IEC61970/Graphics/DiagramObject.py b/CIM15/IEC61970/Graphics/DiagramObject.py
index dca6849..81f3390 100644
--- a/CIM15/IEC61970/Graphics/DiagramObject.py
+++ b/CIM15/IEC61970/Graphics/DiagramObject.py
@@ -99,7 +99,8 @@ class DiagramObject(IdentifiedObject):
         for obj in VisibilityLayers:
             if self not in obj._DiagramObjects:
                 obj._DiagramObjects.append(self)
-            self._VisibilityLayers.append(obj)
+            if obj not in self._VisibilityLayers:
+                self._VisibilityLayers.append(obj)
 
     def removeVisibilityLayers(self, *VisibilityLayers):
         for obj in VisibilityLayers:
diff --git a/CIM15/IEC61970/Graphics/VisibilityLayer.py b/CIM15/IEC61970/Graphics/VisibilityLayer.py
index 543e605..60156b3 100644
--- a/CIM15/IEC61970/Graphics/VisibilityLayer.py
+++ b/CIM15/IEC61970/Graphics/VisibilityLayer.py
@@ -67,7 +67,8 @@ class VisibilityLayer(IdentifiedObject):
         for obj in DiagramObjects:
             if self not in obj._VisibilityLayers:
                 obj._VisibilityLayers.append(self)
-            self._DiagramObjects.append(obj)
+            if obj not in self._DiagramObjects:
+                self._DiagramObjects.append(obj)
 
     def removeDiagramObjects(self, *DiagramObjects):
         for obj in DiagramObjects:
diff --git a/CIM15/IEC61970/Informative/InfAssets/AssetPropertyCurve.py b/CIM15/IEC61970/Informative/InfAssets/AssetPropertyCurve.py
index 13717ce..a5ac7ab 100644
--- a/CIM15/IEC61970/Informative/InfAssets/AssetPropertyCurve.py
+++ b/CIM15/IEC61970/Informative/InfAssets/AssetPropertyCurve.py
@@ -82,7 +82,8 @@ class AssetPropertyCurve(Curve):
         for obj in Assets:
             if self not in obj._AssetPropertyCurves:
                 obj._AssetPropertyCurves.append(self)
-            self._Assets.append(obj)
+            if obj not in self._Assets:
+                self._Assets.append(obj)
 
     def removeAssets(self, *Assets):
         for obj in Assets:
diff --git a/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py b/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py
index 5e2bdd3..f1f30fb 100644
--- a/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py
@@ -132,7 +132,8 @@ class DimensionsInfo(IdentifiedObject):
         for obj in Specifications:
             if self not in obj._DimensionsInfos:
                 obj._DimensionsInfos.append(self)
-            self._Specifications.append(obj)
+            if obj not in self._Specifications:
+                self._Specifications.append(obj)
 
     def removeSpecifications(self, *Specifications):
         for obj in Specifications:
diff --git a/CIM15/IEC61970/Informative/InfAssets/Medium.py b/CIM15/IEC61970/Informative/InfAssets/Medium.py
index e0ac517..1bb74f7 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Medium.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Medium.py
@@ -90,7 +90,8 @@ class Medium(IdentifiedObject):
         for obj in Assets:
             if self not in obj._Mediums:
                 obj._Mediums.append(self)
-            self._Assets.append(obj)
+            if obj not in self._Assets:
+                self._Assets.append(obj)
 
     def removeAssets(self, *Assets):
         for obj in Assets:
diff --git a/CIM15/IEC61970/Informative/InfAssets/MountingConnection.py b/CIM15/IEC61970/Informative/InfAssets/MountingConnection.py
index cc52628..5736c2d 100644
--- a/CIM15/IEC61970/Informative/InfAssets/MountingConnection.py
+++ b/CIM15/IEC61970/Informative/InfAssets/MountingConnection.py
@@ -66,7 +66,8 @@ class MountingConnection(IdentifiedObject):
         for obj in StructureInfos:
             if self not in obj._MountingConnections:
                 obj._MountingConnections.append(self)
-            self._StructureInfos.append(obj)
+            if obj not in self._StructureInfos:
+                self._StructureInfos.append(obj)
 
     def removeStructureInfos(self, *StructureInfos):
         for obj in StructureInfos:
@@ -95,7 +96,8 @@ class MountingConnection(IdentifiedObject):
         for obj in MountingPoints:
             if self not in obj._Connections:
                 obj._Connections.append(self)
-            self._MountingPoints.append(obj)
+            if obj not in self._MountingPoints:
+                self._MountingPoints.append(obj)
 
     def removeMountingPoints(self, *MountingPoints):
         for obj in MountingPoints:
diff --git a/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py b/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py
index 70650cb..4e07855 100644
--- a/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py
+++ b/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py
@@ -78,7 +78,8 @@ class MountingPoint(IdentifiedObject):
         for obj in Connections:
             if self not in obj._MountingPoints:
                 obj._MountingPoints.append(self)
-            self._Connections.append(obj)
+            if obj not in self._Connections:
+                self._Connections.append(obj)
 
     def removeConnections(self, *Connections):
         for obj in Connections:
diff --git a/CIM15/IEC61970/Informative/InfAssets/PowerRating.py b/CIM15/IEC61970/Informative/InfAssets/PowerRating.py
index 90189d6..cd81f46 100644
--- a/CIM15/IEC61970/Informative/InfAssets/PowerRating.py
+++ b/CIM15/IEC61970/Informative/InfAssets/PowerRating.py
@@ -74,7 +74,8 @@ class PowerRating(IdentifiedObject):
         for obj in TransformerAssets:
             if self not in obj._PowerRatings:
                 obj._PowerRatings.append(self)
-            self._TransformerAssets.append(obj)
+            if obj not in self._TransformerAssets:
+                self._TransformerAssets.append(obj)
 
     def removeTransformerAssets(self, *TransformerAssets):
         for obj in TransformerAssets:
diff --git a/CIM15/IEC61970/Informative/InfAssets/Procedure.py b/CIM15/IEC61970/Informative/InfAssets/Procedure.py
index 14992dd..5fbc1e2 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Procedure.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Procedure.py
@@ -133,7 +133,8 @@ class Procedure(Document):
         for obj in CompatibleUnits:
             if self not in obj._Procedures:
                 obj._Procedures.append(self)
-            self._CompatibleUnits.append(obj)
+            if obj not in self._CompatibleUnits:
+                self._CompatibleUnits.append(obj)
 
     def removeCompatibleUnits(self, *CompatibleUnits):
         for obj in CompatibleUnits:
@@ -162,7 +163,8 @@ class Procedure(Document):
         for obj in Limits:
             if self not in obj._Procedures:
                 obj._Procedures.append(self)
-            self._Limits.append(obj)
+            if obj not in self._Limits:
+                self._Limits.append(obj)
 
     def removeLimits(self, *Limits):
         for obj in Limits:
diff --git a/CIM15/IEC61970/Informative/InfAssets/ProcedureDataSet.py b/CIM15/IEC61970/Informative/InfAssets/ProcedureDataSet.py
index 2aae8d6..4a26b50 100644
--- a/CIM15/IEC61970/Informative/InfAssets/ProcedureDataSet.py
+++ b/CIM15/IEC61970/Informative/InfAssets/ProcedureDataSet.py
@@ -79,7 +79,8 @@ class ProcedureDataSet(Document):
         for obj in Properties:
             if self not in obj._ProcedureDataSets:
                 obj._ProcedureDataSets.append(self)
-            self._Properties.append(obj)
+            if obj not in self._Properties:
+                self._Properties.append(obj)
 
     def removeProperties(self, *Properties):
         for obj in Properties:
@@ -108,7 +109,8 @@ class ProcedureDataSet(Document):
         for obj in TransformerObservations:
             if self not in obj._ProcedureDataSets:
                 obj._ProcedureDataSets.append(self)
-            self._TransformerObservations.append(obj)
+            if obj not in self._TransformerObservations:
+                self._TransformerObservations.append(obj)
 
     def removeTransformerObservations(self, *TransformerObservations):
         for obj in TransformerObservations:
@@ -153,7 +155,8 @@ class ProcedureDataSet(Document):
         for obj in MeasurementValues:
             if self not in obj._ProcedureDataSets:
                 obj._ProcedureDataSets.append(self)
-            self._MeasurementValues.append(obj)
+            if obj not in self._MeasurementValues:
+                self._MeasurementValues.append(obj)
 
     def removeMeasurementValues(self, *MeasurementValues):
         for obj in MeasurementValues:
diff --git a/CIM15/IEC61970/Informative/InfAssets/ReliabilityInfo.py b/CIM15/IEC61970/Informative/InfAssets/ReliabilityInfo.py
index 3da9e22..bbd6342 100644
--- a/CIM15/IEC61970/Informative/InfAssets/ReliabilityInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/ReliabilityInfo.py
@@ -90,7 +90,8 @@ class ReliabilityInfo(IdentifiedObject):
         for obj in Assets:
             if self not in obj._ReliabilityInfos:
                 obj._ReliabilityInfos.append(self)
-            self._Assets.append(obj)
+            if obj not in self._Assets:
+                self._Assets.append(obj)
 
     def removeAssets(self, *Assets):
         for obj in Assets:
diff --git a/CIM15/IEC61970/Informative/InfAssets/Specification.py b/CIM15/IEC61970/Informative/InfAssets/Specification.py
index db7df5e..5fd4c78 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Specification.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Specification.py
@@ -171,7 +171,8 @@ class Specification(Document):
         for obj in DimensionsInfos:
             if self not in obj._Specifications:
                 obj._Specifications.append(self)
-            self._DimensionsInfos.append(obj)
+            if obj not in self._DimensionsInfos:
+                self._DimensionsInfos.append(obj)
 
     def removeDimensionsInfos(self, *DimensionsInfos):
         for obj in DimensionsInfos:
@@ -222,7 +223,8 @@ class Specification(Document):
         for obj in QualificationRequirements:
             if self not in obj._Specifications:
                 obj._Specifications.append(self)
-            self._QualificationRequirements.append(obj)
+            if obj not in self._QualificationRequirements:
+                self._QualificationRequirements.append(obj)
 
     def removeQualificationRequirements(self, *QualificationRequirements):
         for obj in QualificationRequirements:
diff --git a/CIM15/IEC61970/Informative/InfAssets/Structure.py b/CIM15/IEC61970/Informative/InfAssets/Structure.py
index 0cc488c..83fb01f 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Structure.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Structure.py
@@ -115,7 +115,8 @@ class Structure(AssetContainer):
         for obj in MountingConnections:
             if self not in obj._StructureInfos:
                 obj._StructureInfos.append(self)
-            self._MountingConnections.append(obj)
+            if obj not in self._MountingConnections:
+                self._MountingConnections.append(obj)
 
     def removeMountingConnections(self, *MountingConnections):
         for obj in MountingConnections:
diff --git a/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py b/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py
index 1fc9908..b0ef6e8 100644
--- a/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py
+++ b/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py
@@ -78,7 +78,8 @@ class TransformerAsset(Asset):
         for obj in PowerRatings:
             if self not in obj._TransformerAssets:
                 obj._TransformerAssets.append(self)
-            self._PowerRatings.append(obj)
+            if obj not in self._PowerRatings:
+                self._PowerRatings.append(obj)
 
     def removePowerRatings(self, *PowerRatings):
         for obj in PowerRatings:
diff --git a/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py b/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py
index 2863a79..d9f27d0 100644
--- a/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py
+++ b/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py
@@ -154,7 +154,8 @@ class TransformerObservation(IdentifiedObject):
         for obj in ProcedureDataSets:
             if self not in obj._TransformerObservations:
                 obj._TransformerObservations.append(self)
-            self._ProcedureDataSets.append(obj)
+            if obj not in self._ProcedureDataSets:
+                self._ProcedureDataSets.append(obj)
 
     def removeProcedureDataSets(self, *ProcedureDataSets):
         for obj in ProcedureDataSets:
diff --git a/CIM15/IEC61970/Informative/InfCommon/BusinessRole.py b/CIM15/IEC61970/Informative/InfCommon/BusinessRole.py
index 8252d31..518852f 100644
--- a/CIM15/IEC61970/Informative/InfCommon/BusinessRole.py
+++ b/CIM15/IEC61970/Informative/InfCommon/BusinessRole.py
@@ -69,7 +69,8 @@ class BusinessRole(IdentifiedObject):
         for obj in Organisations:
             if self not in obj._BusinessRoles:
                 obj._BusinessRoles.append(self)
-            self._Organisations.append(obj)
+            if obj not in self._Organisations:
+                self._Organisations.append(obj)
 
     def removeOrganisations(self, *Organisations):
         for obj in Organisations:
diff --git a/CIM15/IEC61970/Informative/InfCommon/Craft.py b/CIM15/IEC61970/Informative/InfCommon/Craft.py
index 6aff72d..c3ee39b 100644
--- a/CIM15/IEC61970/Informative/InfCommon/Craft.py
+++ b/CIM15/IEC61970/Informative/InfCommon/Craft.py
@@ -77,7 +77,8 @@ class Craft(IdentifiedObject):
         for obj in Skills:
             if self not in obj._Crafts:
                 obj._Crafts.append(self)
-            self._Skills.append(obj)
+            if obj not in self._Skills:
+                self._Skills.append(obj)
 
     def removeSkills(self, *Skills):
         for obj in Skills:
@@ -106,7 +107,8 @@ class Craft(IdentifiedObject):
         for obj in ErpPersons:
             if self not in obj._Crafts:
                 obj._Crafts.append(self)
-            self._ErpPersons.append(obj)
+            if obj not in self._ErpPersons:
+                self._ErpPersons.append(obj)
 
     def removeErpPersons(self, *ErpPersons):
         for obj in ErpPersons:
@@ -137,7 +139,8 @@ class Craft(IdentifiedObject):
         for obj in Capabilities:
             if self not in obj._Crafts:
                 obj._Crafts.append(self)
-            self._Capabilities.append(obj)
+            if obj not in self._Capabilities:
+                self._Capabilities.append(obj)
 
     def removeCapabilities(self, *Capabilities):
         for obj in Capabilities:
diff --git a/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py b/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py
index 35cceb3..8843c15 100644
--- a/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py
+++ b/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py
@@ -98,7 +98,8 @@ class ScheduleParameterInfo(IdentifiedObject):
         for obj in Documents:
             if self not in obj._ScheduleParameterInfos:
                 obj._ScheduleParameterInfos.append(self)
-            self._Documents.append(obj)
+            if obj not in self._Documents:
+                self._Documents.append(obj)
 
     def removeDocuments(self, *Documents):
         for obj in Documents:
diff --git a/CIM15/IEC61970/Informative/InfCommon/ScheduledEvent.py b/CIM15/IEC61970/Informative/InfCommon/ScheduledEvent.py
index 90ef47a..eb8ee4c 100644
--- a/CIM15/IEC61970/Informative/InfCommon/ScheduledEvent.py
+++ b/CIM15/IEC61970/Informative/InfCommon/ScheduledEvent.py
@@ -154,7 +154,8 @@ class ScheduledEvent(IdentifiedObject):
         for obj in Assets:
             if self not in obj._ScheduledEvents:
                 obj._ScheduledEvents.append(self)
-            self._Assets.append(obj)
+            if obj not in self._Assets:
+                self._Assets.append(obj)
 
     def removeAssets(self, *Assets):
         for obj in Assets:
diff --git a/CIM15/IEC61970/Informative/InfCommon/Skill.py b/CIM15/IEC61970/Informative/InfCommon/Skill.py
index bb62a8d..938aa95 100644
--- a/CIM15/IEC61970/Informative/InfCommon/Skill.py
+++ b/CIM15/IEC61970/Informative/InfCommon/Skill.py
@@ -81,7 +81,8 @@ class Skill(Document):
         for obj in Crafts:
             if self not in obj._Skills:
                 obj._Skills.append(self)
-            self._Crafts.append(obj)
+            if obj not in self._Crafts:
+                self._Crafts.append(obj)
 
     def removeCrafts(self, *Crafts):
         for obj in Crafts:
@@ -126,7 +127,8 @@ class Skill(Document):
         for obj in QualificationRequirements:
             if self not in obj._Skills:
                 obj._Skills.append(self)
-            self._QualificationRequirements.append(obj)
+            if obj not in self._QualificationRequirements:
+                self._QualificationRequirements.append(obj)
 
     def removeQualificationRequirements(self, *QualificationRequirements):
         for obj in QualificationRequirements:
diff --git a/CIM15/IEC61970/Informative/InfCustomers/CustomerBillingInfo.py b/CIM15/IEC61970/Informative/InfCustomers/CustomerBillingInfo.py
index 096555e..cedd1d1 100644
--- a/CIM15/IEC61970/Informative/InfCustomers/CustomerBillingInfo.py
+++ b/CIM15/IEC61970/Informative/InfCustomers/CustomerBillingInfo.py
@@ -98,7 +98,8 @@ class CustomerBillingInfo(Document):
         for obj in ErpInvoiceLineItems:
             if self not in obj._CustomerBillingInfos:
                 obj._CustomerBillingInfos.append(self)
-            self._ErpInvoiceLineItems.append(obj)
+            if obj not in self._ErpInvoiceLineItems:
+                self._ErpInvoiceLineItems.append(obj)
 
     def removeErpInvoiceLineItems(self, *ErpInvoiceLineItems):
         for obj in ErpInvoiceLineItems:
diff --git a/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py b/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py
index c1c9c17..43baa66 100644
--- a/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py
+++ b/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py
@@ -135,7 +135,8 @@ class WorkBillingInfo(Document):
         for obj in ErpLineItems:
             if self not in obj._WorkBillingInfos:
                 obj._WorkBillingInfos.append(self)
-            self._ErpLineItems.append(obj)
+            if obj not in self._ErpLineItems:
+                self._ErpLineItems.append(obj)
 
     def removeErpLineItems(self, *ErpLineItems):
         for obj in ErpLineItems:
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py
index 24617c0..bf03a71 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py
@@ -141,7 +141,8 @@ class ErpInvoiceLineItem(Document):
         for obj in ErpPayments:
             if self not in obj._ErpInvoiceLineItems:
                 obj._ErpInvoiceLineItems.append(self)
-            self._ErpPayments.append(obj)
+            if obj not in self._ErpPayments:
+                self._ErpPayments.append(obj)
 
     def removeErpPayments(self, *ErpPayments):
         for obj in ErpPayments:
@@ -186,7 +187,8 @@ class ErpInvoiceLineItem(Document):
         for obj in WorkBillingInfos:
             if self not in obj._ErpLineItems:
                 obj._ErpLineItems.append(self)
-            self._WorkBillingInfos.append(obj)
+            if obj not in self._WorkBillingInfos:
+                self._WorkBillingInfos.append(obj)
 
     def removeWorkBillingInfos(self, *WorkBillingInfos):
         for obj in WorkBillingInfos:
@@ -230,7 +232,8 @@ class ErpInvoiceLineItem(Document):
         for obj in UserAttributes:
             if self not in obj._ErpInvoiceLineItems:
                 obj._ErpInvoiceLineItems.append(self)
-            self._UserAttributes.append(obj)
+            if obj not in self._UserAttributes:
+                self._UserAttributes.append(obj)
 
     def removeUserAttributes(self, *UserAttributes):
         for obj in UserAttributes:
@@ -330,7 +333,8 @@ class ErpInvoiceLineItem(Document):
         for obj in CustomerBillingInfos:
             if self not in obj._ErpInvoiceLineItems:
                 obj._ErpInvoiceLineItems.append(self)
-            self._CustomerBillingInfos.append(obj)
+            if obj not in self._CustomerBillingInfos:
+                self._CustomerBillingInfos.append(obj)
 
     def removeCustomerBillingInfos(self, *CustomerBillingInfos):
         for obj in CustomerBillingInfos:
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpJournalEntry.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpJournalEntry.py
index dc1690f..ea6ddc0 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpJournalEntry.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpJournalEntry.py
@@ -107,7 +107,8 @@ class ErpJournalEntry(IdentifiedObject):
         for obj in ErpPayableLineItems:
             if self not in obj._ErpJournalEntries:
                 obj._ErpJournalEntries.append(self)
-            self._ErpPayableLineItems.append(obj)
+            if obj not in self._ErpPayableLineItems:
+                self._ErpPayableLineItems.append(obj)
 
     def removeErpPayableLineItems(self, *ErpPayableLineItems):
         for obj in ErpPayableLineItems:
@@ -152,7 +153,8 @@ class ErpJournalEntry(IdentifiedObject):
         for obj in ErpRecLineItems:
             if self not in obj._ErpJournalEntries:
                 obj._ErpJournalEntries.append(self)
-            self._ErpRecLineItems.append(obj)
+            if obj not in self._ErpRecLineItems:
+                self._ErpRecLineItems.append(obj)
 
     def removeErpRecLineItems(self, *ErpRecLineItems):
         for obj in ErpRecLineItems:
@@ -196,7 +198,8 @@ class ErpJournalEntry(IdentifiedObject):
         for obj in CostTypes:
             if self not in obj._ErpJournalEntries:
                 obj._ErpJournalEntries.append(self)
-            self._CostTypes.append(obj)
+            if obj not in self._CostTypes:
+                self._CostTypes.append(obj)
 
     def removeCostTypes(self, *CostTypes):
         for obj in CostTypes:
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py
index e2956e3..a06a327 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py
@@ -130,7 +130,8 @@ class ErpLedgerEntry(IdentifiedObject):
         for obj in UserAttributes:
             if self not in obj._ErpLedgerEntries:
                 obj._ErpLedgerEntries.append(self)
-            self._UserAttributes.append(obj)
+            if obj not in self._UserAttributes:
+                self._UserAttributes.append(obj)
 
     def removeUserAttributes(self, *UserAttributes):
         for obj in UserAttributes:
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py
index 9b83ed3..cb93f30 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py
@@ -180,7 +180,8 @@ class ErpOrganisation(Organisation):
         for obj in Crews:
             if self not in obj._Organisations:
                 obj._Organisations.append(self)
-            self._Crews.append(obj)
+            if obj not in self._Crews:
+                self._Crews.append(obj)
 
     def removeCrews(self, *Crews):
         for obj in Crews:
@@ -251,7 +252,8 @@ class ErpOrganisation(Organisation):
         for obj in ActivityRecords:
             if self not in obj._Organisations:
                 obj._Organisations.append(self)
-            self._ActivityRecords.append(obj)
+            if obj not in self._ActivityRecords:
+                self._ActivityRecords.append(obj)
 
     def removeActivityRecords(self, *ActivityRecords):
         for obj in ActivityRecords:
@@ -301,7 +303,8 @@ class ErpOrganisation(Organisation):
         for obj in Locations:
             if self not in obj._ErpOrganisations:
                 obj._ErpOrganisations.append(self)
-            self._Locations.append(obj)
+            if obj not in self._Locations:
+                self._Locations.append(obj)
 
     def removeLocations(self, *Locations):
         for obj in Locations:
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py
index 7cab44b..5c84a15 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py
@@ -66,7 +66,8 @@ class ErpPayable(Document):
         for obj in ContractorItems:
             if self not in obj._ErpPayables:
                 obj._ErpPayables.append(self)
-            self._ContractorItems.append(obj)
+            if obj not in self._ContractorItems:
+                self._ContractorItems.append(obj)
 
     def removeContractorItems(self, *ContractorItems):
         for obj in ContractorItems:
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayableLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayableLineItem.py
index 1410dc5..3e99a0e 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayableLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayableLineItem.py
@@ -77,7 +77,8 @@ class ErpPayableLineItem(IdentifiedObject):
         for obj in ErpPayments:
             if self not in obj._ErpPayableLineItems:
                 obj._ErpPayableLineItems.append(self)
-            self._ErpPayments.append(obj)
+            if obj not in self._ErpPayments:
+                self._ErpPayments.append(obj)
 
     def removeErpPayments(self, *ErpPayments):
         for obj in ErpPayments:
@@ -106,7 +107,8 @@ class ErpPayableLineItem(IdentifiedObject):
         for obj in ErpJournalEntries:
             if self not in obj._ErpPayableLineItems:
                 obj._ErpPayableLineItems.append(self)
-            self._ErpJournalEntries.append(obj)
+            if obj not in self._ErpJournalEntries:
+                self._ErpJournalEntries.append(obj)
 
     def removeErpJournalEntries(self, *ErpJournalEntries):
         for obj in ErpJournalEntries:
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayment.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayment.py
index 588cc52..3db722e 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayment.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayment.py
@@ -74,7 +74,8 @@ class ErpPayment(Document):
         for obj in ErpRecLineItems:
             if self not in obj._ErpPayments:
                 obj._ErpPayments.append(self)
-            self._ErpRecLineItems.append(obj)
+            if obj not in self._ErpRecLineItems:
+                self._ErpRecLineItems.append(obj)
 
     def removeErpRecLineItems(self, *ErpRecLineItems):
         for obj in ErpRecLineItems:
@@ -103,7 +104,8 @@ class ErpPayment(Document):
         for obj in ErpPayableLineItems:
             if self not in obj._ErpPayments:
                 obj._ErpPayments.append(self)
-            self._ErpPayableLineItems.append(obj)
+            if obj not in self._ErpPayableLineItems:
+                self._ErpPayableLineItems.append(obj)
 
     def removeErpPayableLineItems(self, *ErpPayableLineItems):
         for obj in ErpPayableLineItems:
@@ -132,7 +134,8 @@ class ErpPayment(Document):
         for obj in ErpInvoiceLineItems:
             if self not in obj._ErpPayments:
                 obj._ErpPayments.append(self)
-            self._ErpInvoiceLineItems.append(obj)
+            if obj not in self._ErpInvoiceLineItems:
+                self._ErpInvoiceLineItems.append(obj)
 
     def removeErpInvoiceLineItems(self, *ErpInvoiceLineItems):
         for obj in ErpInvoiceLineItems:
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py
index 7b77170..44fbed6 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py
@@ -207,7 +207,8 @@ class ErpPerson(IdentifiedObject):
         for obj in Appointments:
             if self not in obj._ErpPersons:
                 obj._ErpPersons.append(self)
-            self._Appointments.append(obj)
+            if obj not in self._Appointments:
+                self._Appointments.append(obj)
 
     def removeAppointments(self, *Appointments):
         for obj in Appointments:
@@ -237,7 +238,8 @@ class ErpPerson(IdentifiedObject):
         for obj in Crews:
             if self not in obj._CrewMembers:
                 obj._CrewMembers.append(self)
-            self._Crews.append(obj)
+            if obj not in self._Crews:
+                self._Crews.append(obj)
 
     def removeCrews(self, *Crews):
         for obj in Crews:
@@ -266,7 +268,8 @@ class ErpPerson(IdentifiedObject):
         for obj in LaborItems:
             if self not in obj._ErpPersons:
                 obj._ErpPersons.append(self)
-            self._LaborItems.append(obj)
+            if obj not in self._LaborItems:
+                self._LaborItems.append(obj)
 
     def removeLaborItems(self, *LaborItems):
         for obj in LaborItems:
@@ -316,7 +319,8 @@ class ErpPerson(IdentifiedObject):
         for obj in ActivityRecords:
             if self not in obj._ErpPersons:
                 obj._ErpPersons.append(self)
-            self._ActivityRecords.append(obj)
+            if obj not in self._ActivityRecords:
+                self._ActivityRecords.append(obj)
 
     def removeActivityRecords(self, *ActivityRecords):
         for obj in ActivityRecords:
@@ -453,7 +457,8 @@ class ErpPerson(IdentifiedObject):
         for obj in Crafts:
             if self not in obj._ErpPersons:
                 obj._ErpPersons.append(self)
-            self._Crafts.append(obj)
+            if obj not in self._Crafts:
+                self._Crafts.append(obj)
 
     def removeCrafts(self, *Crafts):
         for obj in Crafts:
@@ -498,7 +503,8 @@ class ErpPerson(IdentifiedObject):
         for obj in CallBacks:
             if self not in obj._ErpPersons:
                 obj._ErpPersons.append(self)
-            self._CallBacks.append(obj)
+            if obj not in self._CallBacks:
+                self._CallBacks.append(obj)
 
     def removeCallBacks(self, *CallBacks):
         for obj in CallBacks:
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpRecDelvLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpRecDelvLineItem.py
index 24304dd..4202edc 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpRecDelvLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpRecDelvLineItem.py
@@ -81,7 +81,8 @@ class ErpRecDelvLineItem(IdentifiedObject):
         for obj in Assets:
             if self not in obj._ErpRecDeliveryItems:
                 obj._ErpRecDeliveryItems.append(self)
-            self._Assets.append(obj)
+            if obj not in self._Assets:
+                self._Assets.append(obj)
 
     def removeAssets(self, *Assets):
         for obj in Assets:
@@ -143,7 +144,8 @@ class ErpRecDelvLineItem(IdentifiedObject):
         for obj in MaterialItems:
             if self not in obj._ErpRecDelvLineItems:
                 obj._ErpRecDelvLineItems.append(self)
-            self._MaterialItems.append(obj)
+            if obj not in self._MaterialItems:
+                self._MaterialItems.append(obj)
 
     def removeMaterialItems(self, *MaterialItems):
         for obj in MaterialItems:
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpRecLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpRecLineItem.py
index 1839df2..2fd3a36 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpRecLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpRecLineItem.py
@@ -110,7 +110,8 @@ class ErpRecLineItem(IdentifiedObject):
         for obj in ErpPayments:
             if self not in obj._ErpRecLineItems:
                 obj._ErpRecLineItems.append(self)
-            self._ErpPayments.append(obj)
+            if obj not in self._ErpPayments:
+                self._ErpPayments.append(obj)
 
     def removeErpPayments(self, *ErpPayments):
         for obj in ErpPayments:
@@ -139,7 +140,8 @@ class ErpRecLineItem(IdentifiedObject):
         for obj in ErpJournalEntries:
             if self not in obj._ErpRecLineItems:
                 obj._ErpRecLineItems.append(self)
-            self._ErpJournalEntries.append(obj)
+            if obj not in self._ErpJournalEntries:
+                self._ErpJournalEntries.append(obj)
 
     def removeErpJournalEntries(self, *ErpJournalEntries):
         for obj in ErpJournalEntries:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py b/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py
index 27e6466..7733bbe 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py
@@ -136,7 +136,8 @@ class Diagram(Document):
         for obj in GmlDiagramObjects:
             if self not in obj._Diagrams:
                 obj._Diagrams.append(self)
-            self._GmlDiagramObjects.append(obj)
+            if obj not in self._GmlDiagramObjects:
+                self._GmlDiagramObjects.append(obj)
 
     def removeGmlDiagramObjects(self, *GmlDiagramObjects):
         for obj in GmlDiagramObjects:
@@ -165,7 +166,8 @@ class Diagram(Document):
         for obj in DesignLocations:
             if self not in obj._Diagrams:
                 obj._Diagrams.append(self)
-            self._DesignLocations.append(obj)
+            if obj not in self._DesignLocations:
+                self._DesignLocations.append(obj)
 
     def removeDesignLocations(self, *DesignLocations):
         for obj in DesignLocations:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py
index 60769d7..5f4d737 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py
@@ -94,7 +94,8 @@ class GmlDiagramObject(IdentifiedObject):
         for obj in GmlSelectors:
             if self not in obj._GmlDiagramObjects:
                 obj._GmlDiagramObjects.append(self)
-            self._GmlSelectors.append(obj)
+            if obj not in self._GmlSelectors:
+                self._GmlSelectors.append(obj)
 
     def removeGmlSelectors(self, *GmlSelectors):
         for obj in GmlSelectors:
@@ -123,7 +124,8 @@ class GmlDiagramObject(IdentifiedObject):
         for obj in Diagrams:
             if self not in obj._GmlDiagramObjects:
                 obj._GmlDiagramObjects.append(self)
-            self._Diagrams.append(obj)
+            if obj not in self._Diagrams:
+                self._Diagrams.append(obj)
 
     def removeDiagrams(self, *Diagrams):
         for obj in Diagrams:
@@ -152,7 +154,8 @@ class GmlDiagramObject(IdentifiedObject):
         for obj in CoordinateSystems:
             if self not in obj._GmlDiagramObjects:
                 obj._GmlDiagramObjects.append(self)
-            self._CoordinateSystems.append(obj)
+            if obj not in self._CoordinateSystems:
+                self._CoordinateSystems.append(obj)
 
     def removeCoordinateSystems(self, *CoordinateSystems):
         for obj in CoordinateSystems:
@@ -244,7 +247,8 @@ class GmlDiagramObject(IdentifiedObject):
         for obj in GmlObservatins:
             if self not in obj._GmlDiagramObjects:
                 obj._GmlDiagramObjects.append(self)
-            self._GmlObservatins.append(obj)
+            if obj not in self._GmlObservatins:
+                self._GmlObservatins.append(obj)
 
     def removeGmlObservatins(self, *GmlObservatins):
         for obj in GmlObservatins:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py
index ffb91dc..9835d82 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py
@@ -127,7 +127,8 @@ class GmlFeatureStyle(IdentifiedObject):
         for obj in GmlSymbols:
             if self not in obj._GmlFeatureStyles:
                 obj._GmlFeatureStyles.append(self)
-            self._GmlSymbols.append(obj)
+            if obj not in self._GmlSymbols:
+                self._GmlSymbols.append(obj)
 
     def removeGmlSymbols(self, *GmlSymbols):
         for obj in GmlSymbols:
@@ -198,7 +199,8 @@ class GmlFeatureStyle(IdentifiedObject):
         for obj in GmlFeatureTypes:
             if self not in obj._GmlFeatureStyles:
                 obj._GmlFeatureStyles.append(self)
-            self._GmlFeatureTypes.append(obj)
+            if obj not in self._GmlFeatureTypes:
+                self._GmlFeatureTypes.append(obj)
 
     def removeGmlFeatureTypes(self, *GmlFeatureTypes):
         for obj in GmlFeatureTypes:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureType.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureType.py
index fefe8ae..bd99f69 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureType.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureType.py
@@ -62,7 +62,8 @@ class GmlFeatureType(IdentifiedObject):
         for obj in GmlFeatureStyles:
             if self not in obj._GmlFeatureTypes:
                 obj._GmlFeatureTypes.append(self)
-            self._GmlFeatureStyles.append(obj)
+            if obj not in self._GmlFeatureStyles:
+                self._GmlFeatureStyles.append(obj)
 
     def removeGmlFeatureStyles(self, *GmlFeatureStyles):
         for obj in GmlFeatureStyles:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py
index ec5c526..25100bd 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py
@@ -98,7 +98,8 @@ class GmlFill(IdentifiedObject):
         for obj in GmlMarks:
             if self not in obj._GmlFIlls:
                 obj._GmlFIlls.append(self)
-            self._GmlMarks.append(obj)
+            if obj not in self._GmlMarks:
+                self._GmlMarks.append(obj)
 
     def removeGmlMarks(self, *GmlMarks):
         for obj in GmlMarks:
@@ -148,7 +149,8 @@ class GmlFill(IdentifiedObject):
         for obj in GmlSvgParameters:
             if self not in obj._GmlFills:
                 obj._GmlFills.append(self)
-            self._GmlSvgParameters.append(obj)
+            if obj not in self._GmlSvgParameters:
+                self._GmlSvgParameters.append(obj)
 
     def removeGmlSvgParameters(self, *GmlSvgParameters):
         for obj in GmlSvgParameters:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py
index b35a4be..e7bdeff 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py
@@ -111,7 +111,8 @@ class GmlFont(IdentifiedObject):
         for obj in GmlSvgParameters:
             if self not in obj._GmlFonts:
                 obj._GmlFonts.append(self)
-            self._GmlSvgParameters.append(obj)
+            if obj not in self._GmlSvgParameters:
+                self._GmlSvgParameters.append(obj)
 
     def removeGmlSvgParameters(self, *GmlSvgParameters):
         for obj in GmlSvgParameters:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py
index 7d7d08e..9186096 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py
@@ -94,7 +94,8 @@ class GmlGraphic(IdentifiedObject):
         for obj in GmlMarks:
             if self not in obj._GmlGraphics:
                 obj._GmlGraphics.append(self)
-            self._GmlMarks.append(obj)
+            if obj not in self._GmlMarks:
+                self._GmlMarks.append(obj)
 
     def removeGmlMarks(self, *GmlMarks):
         for obj in GmlMarks:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlMark.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlMark.py
index 6dd69b3..deaeba6 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlMark.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlMark.py
@@ -74,7 +74,8 @@ class GmlMark(IdentifiedObject):
         for obj in GmlGraphics:
             if self not in obj._GmlMarks:
                 obj._GmlMarks.append(self)
-            self._GmlGraphics.append(obj)
+            if obj not in self._GmlGraphics:
+                self._GmlGraphics.append(obj)
 
     def removeGmlGraphics(self, *GmlGraphics):
         for obj in GmlGraphics:
@@ -103,7 +104,8 @@ class GmlMark(IdentifiedObject):
         for obj in GmlStrokes:
             if self not in obj._GmlMarks:
                 obj._GmlMarks.append(self)
-            self._GmlStrokes.append(obj)
+            if obj not in self._GmlStrokes:
+                self._GmlStrokes.append(obj)
 
     def removeGmlStrokes(self, *GmlStrokes):
         for obj in GmlStrokes:
@@ -132,7 +134,8 @@ class GmlMark(IdentifiedObject):
         for obj in GmlFIlls:
             if self not in obj._GmlMarks:
                 obj._GmlMarks.append(self)
-            self._GmlFIlls.append(obj)
+            if obj not in self._GmlFIlls:
+                self._GmlFIlls.append(obj)
 
     def removeGmlFIlls(self, *GmlFIlls):
         for obj in GmlFIlls:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py
index c7e3cf2..645e5f3 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py
@@ -86,7 +86,8 @@ class GmlObservation(Element):
         for obj in GmlDiagramObjects:
             if self not in obj._GmlObservatins:
                 obj._GmlObservatins.append(self)
-            self._GmlDiagramObjects.append(obj)
+            if obj not in self._GmlDiagramObjects:
+                self._GmlDiagramObjects.append(obj)
 
     def removeGmlDiagramObjects(self, *GmlDiagramObjects):
         for obj in GmlDiagramObjects:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py
index 376cfe1..77ac77c 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py
@@ -87,7 +87,8 @@ class GmlSelector(IdentifiedObject):
         for obj in GmlDiagramObjects:
             if self not in obj._GmlSelectors:
                 obj._GmlSelectors.append(self)
-            self._GmlDiagramObjects.append(obj)
+            if obj not in self._GmlDiagramObjects:
+                self._GmlDiagramObjects.append(obj)
 
     def removeGmlDiagramObjects(self, *GmlDiagramObjects):
         for obj in GmlDiagramObjects:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py
index 21779eb..bf45946 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py
@@ -143,7 +143,8 @@ class GmlStroke(IdentifiedObject):
         for obj in GmlMarks:
             if self not in obj._GmlStrokes:
                 obj._GmlStrokes.append(self)
-            self._GmlMarks.append(obj)
+            if obj not in self._GmlMarks:
+                self._GmlMarks.append(obj)
 
     def removeGmlMarks(self, *GmlMarks):
         for obj in GmlMarks:
@@ -172,7 +173,8 @@ class GmlStroke(IdentifiedObject):
         for obj in GmlSvgParameters:
             if self not in obj._GmlStokes:
                 obj._GmlStokes.append(self)
-            self._GmlSvgParameters.append(obj)
+            if obj not in self._GmlSvgParameters:
+                self._GmlSvgParameters.append(obj)
 
     def removeGmlSvgParameters(self, *GmlSvgParameters):
         for obj in GmlSvgParameters:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSvgParameter.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSvgParameter.py
index 35c7a47..8b1f97d 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSvgParameter.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSvgParameter.py
@@ -78,7 +78,8 @@ class GmlSvgParameter(IdentifiedObject):
         for obj in GmlStokes:
             if self not in obj._GmlSvgParameters:
                 obj._GmlSvgParameters.append(self)
-            self._GmlStokes.append(obj)
+            if obj not in self._GmlStokes:
+                self._GmlStokes.append(obj)
 
     def removeGmlStokes(self, *GmlStokes):
         for obj in GmlStokes:
@@ -107,7 +108,8 @@ class GmlSvgParameter(IdentifiedObject):
         for obj in GmlFonts:
             if self not in obj._GmlSvgParameters:
                 obj._GmlSvgParameters.append(self)
-            self._GmlFonts.append(obj)
+            if obj not in self._GmlFonts:
+                self._GmlFonts.append(obj)
 
     def removeGmlFonts(self, *GmlFonts):
         for obj in GmlFonts:
@@ -136,7 +138,8 @@ class GmlSvgParameter(IdentifiedObject):
         for obj in GmlFills:
             if self not in obj._GmlSvgParameters:
                 obj._GmlSvgParameters.append(self)
-            self._GmlFills.append(obj)
+            if obj not in self._GmlFills:
+                self._GmlFills.append(obj)
 
     def removeGmlFills(self, *GmlFills):
         for obj in GmlFills:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSymbol.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSymbol.py
index 8a4e4a7..9fbf6de 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSymbol.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSymbol.py
@@ -78,7 +78,8 @@ class GmlSymbol(IdentifiedObject):
         for obj in GmlFeatureStyles:
             if self not in obj._GmlSymbols:
                 obj._GmlSymbols.append(self)
-            self._GmlFeatureStyles.append(obj)
+            if obj not in self._GmlFeatureStyles:
+                self._GmlFeatureStyles.append(obj)
 
     def removeGmlFeatureStyles(self, *GmlFeatureStyles):
         for obj in GmlFeatureStyles:
diff --git a/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py b/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py
index f4d789c..c290536 100644
--- a/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py
+++ b/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py
@@ -90,7 +90,8 @@ class LoadMgmtFunction(EndDeviceFunction):
         for obj in Switches:
             if self not in obj._LoadMgmtFunctions:
                 obj._LoadMgmtFunctions.append(self)
-            self._Switches.append(obj)
+            if obj not in self._Switches:
+                self._Switches.append(obj)
 
     def removeSwitches(self, *Switches):
         for obj in Switches:
diff --git a/CIM15/IEC61970/Informative/InfLocations/Hazard.py b/CIM15/IEC61970/Informative/InfLocations/Hazard.py
index e57311d..3c80d11 100644
--- a/CIM15/IEC61970/Informative/InfLocations/Hazard.py
+++ b/CIM15/IEC61970/Informative/InfLocations/Hazard.py
@@ -70,7 +70,8 @@ class Hazard(IdentifiedObject):
         for obj in Locations:
             if self not in obj._Hazards:
                 obj._Hazards.append(self)
-            self._Locations.append(obj)
+            if obj not in self._Locations:
+                self._Locations.append(obj)
 
     def removeLocations(self, *Locations):
         for obj in Locations:
diff --git a/CIM15/IEC61970/Informative/InfLocations/LandProperty.py b/CIM15/IEC61970/Informative/InfLocations/LandProperty.py
index a4960b8..33e4d8f 100644
--- a/CIM15/IEC61970/Informative/InfLocations/LandProperty.py
+++ b/CIM15/IEC61970/Informative/InfLocations/LandProperty.py
@@ -167,7 +167,8 @@ class LandProperty(IdentifiedObject):
         for obj in ErpOrganisationRoles:
             if self not in obj._LandProperty:
                 obj._LandProperty.append(self)
-            self._ErpOrganisationRoles.append(obj)
+            if obj not in self._ErpOrganisationRoles:
+                self._ErpOrganisationRoles.append(obj)
 
     def removeErpOrganisationRoles(self, *ErpOrganisationRoles):
         for obj in ErpOrganisationRoles:
@@ -196,7 +197,8 @@ class LandProperty(IdentifiedObject):
         for obj in AssetContainers:
             if self not in obj._LandProperties:
                 obj._LandProperties.append(self)
-            self._AssetContainers.append(obj)
+            if obj not in self._AssetContainers:
+                self._AssetContainers.append(obj)
 
     def removeAssetContainers(self, *AssetContainers):
         for obj in AssetContainers:
@@ -226,7 +228,8 @@ class LandProperty(IdentifiedObject):
         for obj in Locations:
             if self not in obj._LandProperties:
                 obj._LandProperties.append(self)
-            self._Locations.append(obj)
+            if obj not in self._Locations:
+                self._Locations.append(obj)
 
     def removeLocations(self, *Locations):
         for obj in Locations:
@@ -256,7 +259,8 @@ class LandProperty(IdentifiedObject):
         for obj in RightOfWays:
             if self not in obj._LandProperties:
                 obj._LandProperties.append(self)
-            self._RightOfWays.append(obj)
+            if obj not in self._RightOfWays:
+                self._RightOfWays.append(obj)
 
     def removeRightOfWays(self, *RightOfWays):
         for obj in RightOfWays:
diff --git a/CIM15/IEC61970/Informative/InfLocations/OrgPropertyRole.py b/CIM15/IEC61970/Informative/InfLocations/OrgPropertyRole.py
index 91935b1..bdd66c3 100644
--- a/CIM15/IEC61970/Informative/InfLocations/OrgPropertyRole.py
+++ b/CIM15/IEC61970/Informative/InfLocations/OrgPropertyRole.py
@@ -66,7 +66,8 @@ class OrgPropertyRole(Role):
         for obj in LandProperty:
             if self not in obj._ErpOrganisationRoles:
                 obj._ErpOrganisationRoles.append(self)
-            self._LandProperty.append(obj)
+            if obj not in self._LandProperty:
+                self._LandProperty.append(obj)
 
     def removeLandProperty(self, *LandProperty):
         for obj in LandProperty:
diff --git a/CIM15/IEC61970/Informative/InfLocations/RedLine.py b/CIM15/IEC61970/Informative/InfLocations/RedLine.py
index 4abb6f8..bf064db 100644
--- a/CIM15/IEC61970/Informative/InfLocations/RedLine.py
+++ b/CIM15/IEC61970/Informative/InfLocations/RedLine.py
@@ -65,7 +65,8 @@ class RedLine(IdentifiedObject):
         for obj in Locations:
             if self not in obj._RedLines:
                 obj._RedLines.append(self)
-            self._Locations.append(obj)
+            if obj not in self._Locations:
+                self._Locations.append(obj)
 
     def removeLocations(self, *Locations):
         for obj in Locations:
diff --git a/CIM15/IEC61970/Informative/InfLocations/RightOfWay.py b/CIM15/IEC61970/Informative/InfLocations/RightOfWay.py
index c72737e..a31b25a 100644
--- a/CIM15/IEC61970/Informative/InfLocations/RightOfWay.py
+++ b/CIM15/IEC61970/Informative/InfLocations/RightOfWay.py
@@ -67,7 +67,8 @@ class RightOfWay(Agreement):
         for obj in LandProperties:
             if self not in obj._RightOfWays:
                 obj._RightOfWays.append(self)
-            self._LandProperties.append(obj)
+            if obj not in self._LandProperties:
+                self._LandProperties.append(obj)
 
     def removeLandProperties(self, *LandProperties):
         for obj in LandProperties:
diff --git a/CIM15/IEC61970/Informative/InfLocations/Route.py b/CIM15/IEC61970/Informative/InfLocations/Route.py
index d62fd3b..b7c67a1 100644
--- a/CIM15/IEC61970/Informative/InfLocations/Route.py
+++ b/CIM15/IEC61970/Informative/InfLocations/Route.py
@@ -96,7 +96,8 @@ class Route(IdentifiedObject):
         for obj in Locations:
             if self not in obj._Routes:
                 obj._Routes.append(self)
-            self._Locations.append(obj)
+            if obj not in self._Locations:
+                self._Locations.append(obj)
 
     def removeLocations(self, *Locations):
         for obj in Locations:
diff --git a/CIM15/IEC61970/Informative/InfOperations/CallBack.py b/CIM15/IEC61970/Informative/InfOperations/CallBack.py
index cefba3b..5af8118 100644
--- a/CIM15/IEC61970/Informative/InfOperations/CallBack.py
+++ b/CIM15/IEC61970/Informative/InfOperations/CallBack.py
@@ -114,7 +114,8 @@ class CallBack(IdentifiedObject):
         for obj in ErpPersons:
             if self not in obj._CallBacks:
                 obj._CallBacks.append(self)
-            self._ErpPersons.append(obj)
+            if obj not in self._ErpPersons:
+                self._ErpPersons.append(obj)
 
     def removeErpPersons(self, *ErpPersons):
         for obj in ErpPersons:
@@ -143,7 +144,8 @@ class CallBack(IdentifiedObject):
         for obj in TroubleTickets:
             if self not in obj._CallBacks:
                 obj._CallBacks.append(self)
-            self._TroubleTickets.append(obj)
+            if obj not in self._TroubleTickets:
+                self._TroubleTickets.append(obj)
 
     def removeTroubleTickets(self, *TroubleTickets):
         for obj in TroubleTickets:
diff --git a/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py b/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py
index 2339e98..188a30b 100644
--- a/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py
+++ b/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py
@@ -73,7 +73,8 @@ class ChangeSet(IdentifiedObject):
         for obj in NetworkDataSets:
             if self not in obj._ChangeSets:
                 obj._ChangeSets.append(self)
-            self._NetworkDataSets.append(obj)
+            if obj not in self._NetworkDataSets:
+                self._NetworkDataSets.append(obj)
 
     def removeNetworkDataSets(self, *NetworkDataSets):
         for obj in NetworkDataSets:
@@ -125,7 +126,8 @@ class ChangeSet(IdentifiedObject):
         for obj in Documents:
             if self not in obj._ChangeSets:
                 obj._ChangeSets.append(self)
-            self._Documents.append(obj)
+            if obj not in self._Documents:
+                self._Documents.append(obj)
 
     def removeDocuments(self, *Documents):
         for obj in Documents:
diff --git a/CIM15/IEC61970/Informative/InfOperations/Circuit.py b/CIM15/IEC61970/Informative/InfOperations/Circuit.py
index 59c5c6d..af3a6cb 100644
--- a/CIM15/IEC61970/Informative/InfOperations/Circuit.py
+++ b/CIM15/IEC61970/Informative/InfOperations/Circuit.py
@@ -62,7 +62,8 @@ class Circuit(EquipmentContainer):
         for obj in CircuitSections:
             if self not in obj._Circuits:
                 obj._Circuits.append(self)
-            self._CircuitSections.append(obj)
+            if obj not in self._CircuitSections:
+                self._CircuitSections.append(obj)
 
     def removeCircuitSections(self, *CircuitSections):
         for obj in CircuitSections:
diff --git a/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py b/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py
index 4bcf357..0ff21e2 100644
--- a/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py
+++ b/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py
@@ -91,7 +91,8 @@ class CircuitSection(IdentifiedObject):
         for obj in Circuits:
             if self not in obj._CircuitSections:
                 obj._CircuitSections.append(self)
-            self._Circuits.append(obj)
+            if obj not in self._Circuits:
+                self._Circuits.append(obj)
 
     def removeCircuits(self, *Circuits):
         for obj in Circuits:
diff --git a/CIM15/IEC61970/Informative/InfOperations/IncidentCode.py b/CIM15/IEC61970/Informative/InfOperations/IncidentCode.py
index 5073058..1ccdbdf 100644
--- a/CIM15/IEC61970/Informative/InfOperations/IncidentCode.py
+++ b/CIM15/IEC61970/Informative/InfOperations/IncidentCode.py
@@ -66,7 +66,8 @@ class IncidentCode(IdentifiedObject):
         for obj in IncidentRecords:
             if self not in obj._IncidentCodes:
                 obj._IncidentCodes.append(self)
-            self._IncidentRecords.append(obj)
+            if obj not in self._IncidentRecords:
+                self._IncidentRecords.append(obj)
 
     def removeIncidentRecords(self, *IncidentRecords):
         for obj in IncidentRecords:
diff --git a/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py b/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py
index 1b9b222..4010c43 100644
--- a/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py
+++ b/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py
@@ -93,7 +93,8 @@ class IncidentRecord(Document):
         for obj in IncidentCodes:
             if self not in obj._IncidentRecords:
                 obj._IncidentRecords.append(self)
-            self._IncidentCodes.append(obj)
+            if obj not in self._IncidentCodes:
+                self._IncidentCodes.append(obj)
 
     def removeIncidentCodes(self, *IncidentCodes):
         for obj in IncidentCodes:
diff --git a/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py b/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py
index 058d0bc..69e62d8 100644
--- a/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py
+++ b/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py
@@ -83,7 +83,8 @@ class NetworkDataSet(IdentifiedObject):
         for obj in Documents:
             if self not in obj._NetworkDataSets:
                 obj._NetworkDataSets.append(self)
-            self._Documents.append(obj)
+            if obj not in self._Documents:
+                self._Documents.append(obj)
 
     def removeDocuments(self, *Documents):
         for obj in Documents:
@@ -133,7 +134,8 @@ class NetworkDataSet(IdentifiedObject):
         for obj in ChangeSets:
             if self not in obj._NetworkDataSets:
                 obj._NetworkDataSets.append(self)
-            self._ChangeSets.append(obj)
+            if obj not in self._ChangeSets:
+                self._ChangeSets.append(obj)
 
     def removeChangeSets(self, *ChangeSets):
         for obj in ChangeSets:
@@ -162,7 +164,8 @@ class NetworkDataSet(IdentifiedObject):
         for obj in PowerSystemResources:
             if self not in obj._NetworkDataSets:
                 obj._NetworkDataSets.append(self)
-            self._PowerSystemResources.append(obj)
+            if obj not in self._PowerSystemResources:
+                self._PowerSystemResources.append(obj)
 
     def removePowerSystemResources(self, *PowerSystemResources):
         for obj in PowerSystemResources:
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageCode.py b/CIM15/IEC61970/Informative/InfOperations/OutageCode.py
index 1a1cdd1..cc6999e 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageCode.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageCode.py
@@ -70,7 +70,8 @@ class OutageCode(IdentifiedObject):
         for obj in OutageRecords:
             if self not in obj._OutageCodes:
                 obj._OutageCodes.append(self)
-            self._OutageRecords.append(obj)
+            if obj not in self._OutageRecords:
+                self._OutageRecords.append(obj)
 
     def removeOutageRecords(self, *OutageRecords):
         for obj in OutageRecords:
@@ -99,7 +100,8 @@ class OutageCode(IdentifiedObject):
         for obj in OutageSteps:
             if self not in obj._OutageCodes:
                 obj._OutageCodes.append(self)
-            self._OutageSteps.append(obj)
+            if obj not in self._OutageSteps:
+                self._OutageSteps.append(obj)
 
     def removeOutageSteps(self, *OutageSteps):
         for obj in OutageSteps:
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageNotification.py b/CIM15/IEC61970/Informative/InfOperations/OutageNotification.py
index 14e0bab..c3cf595 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageNotification.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageNotification.py
@@ -74,7 +74,8 @@ class OutageNotification(Document):
         for obj in CustomerDatas:
             if self not in obj._OutageNotifications:
                 obj._OutageNotifications.append(self)
-            self._CustomerDatas.append(obj)
+            if obj not in self._CustomerDatas:
+                self._CustomerDatas.append(obj)
 
     def removeCustomerDatas(self, *CustomerDatas):
         for obj in CustomerDatas:
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py b/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py
index 2118db8..f95adcd 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py
@@ -91,7 +91,8 @@ class OutageRecord(Document):
         for obj in OutageCodes:
             if self not in obj._OutageRecords:
                 obj._OutageRecords.append(self)
-            self._OutageCodes.append(obj)
+            if obj not in self._OutageCodes:
+                self._OutageCodes.append(obj)
 
     def removeOutageCodes(self, *OutageCodes):
         for obj in OutageCodes:
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageStep.py b/CIM15/IEC61970/Informative/InfOperations/OutageStep.py
index 3750244..a07147c 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageStep.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageStep.py
@@ -128,7 +128,8 @@ class OutageStep(IdentifiedObject):
         for obj in Crews:
             if self not in obj._OutageSteps:
                 obj._OutageSteps.append(self)
-            self._Crews.append(obj)
+            if obj not in self._Crews:
+                self._Crews.append(obj)
 
     def removeCrews(self, *Crews):
         for obj in Crews:
@@ -200,7 +201,8 @@ class OutageStep(IdentifiedObject):
         for obj in OutageCodes:
             if self not in obj._OutageSteps:
                 obj._OutageSteps.append(self)
-            self._OutageCodes.append(obj)
+            if obj not in self._OutageCodes:
+                self._OutageCodes.append(obj)
 
     def removeOutageCodes(self, *OutageCodes):
         for obj in OutageCodes:
diff --git a/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py b/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py
index 6db997a..cdd11e8 100644
--- a/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py
+++ b/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py
@@ -115,7 +115,8 @@ class SwitchingSchedule(Document):
         for obj in Crews:
             if self not in obj._SwitchingSchedules:
                 obj._SwitchingSchedules.append(self)
-            self._Crews.append(obj)
+            if obj not in self._Crews:
+                self._Crews.append(obj)
 
     def removeCrews(self, *Crews):
         for obj in Crews:
diff --git a/CIM15/IEC61970/Informative/InfOperations/SwitchingStep.py b/CIM15/IEC61970/Informative/InfOperations/SwitchingStep.py
index 544da86..90a497c 100644
--- a/CIM15/IEC61970/Informative/InfOperations/SwitchingStep.py
+++ b/CIM15/IEC61970/Informative/InfOperations/SwitchingStep.py
@@ -128,7 +128,8 @@ class SwitchingStep(IdentifiedObject):
         for obj in PowerSystemResources:
             if self not in obj._ScheduleSteps:
                 obj._ScheduleSteps.append(self)
-            self._PowerSystemResources.append(obj)
+            if obj not in self._PowerSystemResources:
+                self._PowerSystemResources.append(obj)
 
     def removePowerSystemResources(self, *PowerSystemResources):
         for obj in PowerSystemResources:
diff --git a/CIM15/IEC61970/Informative/InfOperations/TroubleTicket.py b/CIM15/IEC61970/Informative/InfOperations/TroubleTicket.py
index 6cb59c2..e9f8ed5 100644
--- a/CIM15/IEC61970/Informative/InfOperations/TroubleTicket.py
+++ b/CIM15/IEC61970/Informative/InfOperations/TroubleTicket.py
@@ -109,7 +109,8 @@ class TroubleTicket(Document):
         for obj in CallBacks:
             if self not in obj._TroubleTickets:
                 obj._TroubleTickets.append(self)
-            self._CallBacks.append(obj)
+            if obj not in self._CallBacks:
+                self._CallBacks.append(obj)
 
     def removeCallBacks(self, *CallBacks):
         for obj in CallBacks:
diff --git a/CIM15/IEC61970/Informative/InfWork/Appointment.py b/CIM15/IEC61970/Informative/InfWork/Appointment.py
index bff55ad..61fd2d7 100644
--- a/CIM15/IEC61970/Informative/InfWork/Appointment.py
+++ b/CIM15/IEC61970/Informative/InfWork/Appointment.py
@@ -83,7 +83,8 @@ class Appointment(ScheduledEvent):
         for obj in ErpPersons:
             if self not in obj._Appointments:
                 obj._Appointments.append(self)
-            self._ErpPersons.append(obj)
+            if obj not in self._ErpPersons:
+                self._ErpPersons.append(obj)
 
     def removeErpPersons(self, *ErpPersons):
         for obj in ErpPersons:
diff --git a/CIM15/IEC61970/Informative/InfWork/Assignment.py b/CIM15/IEC61970/Informative/InfWork/Assignment.py
index 3e83a29..be80376 100644
--- a/CIM15/IEC61970/Informative/InfWork/Assignment.py
+++ b/CIM15/IEC61970/Informative/InfWork/Assignment.py
@@ -66,7 +66,8 @@ class Assignment(Document):
         for obj in Crews:
             if self not in obj._Assignments:
                 obj._Assignments.append(self)
-            self._Crews.append(obj)
+            if obj not in self._Crews:
+                self._Crews.append(obj)
 
     def removeCrews(self, *Crews):
         for obj in Crews:
diff --git a/CIM15/IEC61970/Informative/InfWork/CUAsset.py b/CIM15/IEC61970/Informative/InfWork/CUAsset.py
index fab8844..402b972 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUAsset.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUAsset.py
@@ -77,7 +77,8 @@ class CUAsset(IdentifiedObject):
         for obj in CompatibleUnits:
             if self not in obj._CUAssets:
                 obj._CUAssets.append(self)
-            self._CompatibleUnits.append(obj)
+            if obj not in self._CompatibleUnits:
+                self._CompatibleUnits.append(obj)
 
     def removeCompatibleUnits(self, *CompatibleUnits):
         for obj in CompatibleUnits:
diff --git a/CIM15/IEC61970/Informative/InfWork/CUContractorItem.py b/CIM15/IEC61970/Informative/InfWork/CUContractorItem.py
index 53cfcaf..2d9e1d4 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUContractorItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUContractorItem.py
@@ -73,7 +73,8 @@ class CUContractorItem(IdentifiedObject):
         for obj in CompatibleUnits:
             if self not in obj._CUContractorItems:
                 obj._CUContractorItems.append(self)
-            self._CompatibleUnits.append(obj)
+            if obj not in self._CompatibleUnits:
+                self._CompatibleUnits.append(obj)
 
     def removeCompatibleUnits(self, *CompatibleUnits):
         for obj in CompatibleUnits:
diff --git a/CIM15/IEC61970/Informative/InfWork/CUGroup.py b/CIM15/IEC61970/Informative/InfWork/CUGroup.py
index f728ff6..1895137 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUGroup.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUGroup.py
@@ -98,7 +98,8 @@ class CUGroup(IdentifiedObject):
         for obj in ParentCUGroups:
             if self not in obj._ChildCUGroups:
                 obj._ChildCUGroups.append(self)
-            self._ParentCUGroups.append(obj)
+            if obj not in self._ParentCUGroups:
+                self._ParentCUGroups.append(obj)
 
     def removeParentCUGroups(self, *ParentCUGroups):
         for obj in ParentCUGroups:
@@ -127,7 +128,8 @@ class CUGroup(IdentifiedObject):
         for obj in ChildCUGroups:
             if self not in obj._ParentCUGroups:
                 obj._ParentCUGroups.append(self)
-            self._ChildCUGroups.append(obj)
+            if obj not in self._ChildCUGroups:
+                self._ChildCUGroups.append(obj)
 
     def removeChildCUGroups(self, *ChildCUGroups):
         for obj in ChildCUGroups:
@@ -158,7 +160,8 @@ class CUGroup(IdentifiedObject):
         for obj in DesignLocationCUs:
             if self not in obj._CUGroups:
                 obj._CUGroups.append(self)
-            self._DesignLocationCUs.append(obj)
+            if obj not in self._DesignLocationCUs:
+                self._DesignLocationCUs.append(obj)
 
     def removeDesignLocationCUs(self, *DesignLocationCUs):
         for obj in DesignLocationCUs:
diff --git a/CIM15/IEC61970/Informative/InfWork/CULaborItem.py b/CIM15/IEC61970/Informative/InfWork/CULaborItem.py
index 263bfc6..45b1ab7 100644
--- a/CIM15/IEC61970/Informative/InfWork/CULaborItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/CULaborItem.py
@@ -85,7 +85,8 @@ class CULaborItem(IdentifiedObject):
         for obj in CompatibleUnits:
             if self not in obj._CULaborItems:
                 obj._CULaborItems.append(self)
-            self._CompatibleUnits.append(obj)
+            if obj not in self._CompatibleUnits:
+                self._CompatibleUnits.append(obj)
 
     def removeCompatibleUnits(self, *CompatibleUnits):
         for obj in CompatibleUnits:
@@ -132,7 +133,8 @@ class CULaborItem(IdentifiedObject):
         for obj in QualificationRequirements:
             if self not in obj._CULaborItems:
                 obj._CULaborItems.append(self)
-            self._QualificationRequirements.append(obj)
+            if obj not in self._QualificationRequirements:
+                self._QualificationRequirements.append(obj)
 
     def removeQualificationRequirements(self, *QualificationRequirements):
         for obj in QualificationRequirements:
diff --git a/CIM15/IEC61970/Informative/InfWork/CUMaterialItem.py b/CIM15/IEC61970/Informative/InfWork/CUMaterialItem.py
index aded4d2..d694e5d 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUMaterialItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUMaterialItem.py
@@ -83,7 +83,8 @@ class CUMaterialItem(IdentifiedObject):
         for obj in PropertyUnits:
             if self not in obj._CUMaterialItems:
                 obj._CUMaterialItems.append(self)
-            self._PropertyUnits.append(obj)
+            if obj not in self._PropertyUnits:
+                self._PropertyUnits.append(obj)
 
     def removePropertyUnits(self, *PropertyUnits):
         for obj in PropertyUnits:
@@ -112,7 +113,8 @@ class CUMaterialItem(IdentifiedObject):
         for obj in CompatibleUnits:
             if self not in obj._CUMaterialItems:
                 obj._CUMaterialItems.append(self)
-            self._CompatibleUnits.append(obj)
+            if obj not in self._CompatibleUnits:
+                self._CompatibleUnits.append(obj)
 
     def removeCompatibleUnits(self, *CompatibleUnits):
         for obj in CompatibleUnits:
diff --git a/CIM15/IEC61970/Informative/InfWork/CUWorkEquipmentItem.py b/CIM15/IEC61970/Informative/InfWork/CUWorkEquipmentItem.py
index 05ed762..aafb6a2 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUWorkEquipmentItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUWorkEquipmentItem.py
@@ -94,7 +94,8 @@ class CUWorkEquipmentItem(IdentifiedObject):
         for obj in CompatibleUnits:
             if self not in obj._CUWorkEquipmentItems:
                 obj._CUWorkEquipmentItems.append(self)
-            self._CompatibleUnits.append(obj)
+            if obj not in self._CompatibleUnits:
+                self._CompatibleUnits.append(obj)
 
     def removeCompatibleUnits(self, *CompatibleUnits):
         for obj in CompatibleUnits:
diff --git a/CIM15/IEC61970/Informative/InfWork/Capability.py b/CIM15/IEC61970/Informative/InfWork/Capability.py
index 5e71df1..ed10e49 100644
--- a/CIM15/IEC61970/Informative/InfWork/Capability.py
+++ b/CIM15/IEC61970/Informative/InfWork/Capability.py
@@ -100,7 +100,8 @@ class Capability(IdentifiedObject):
         for obj in WorkTasks:
             if self not in obj._Capabilities:
                 obj._Capabilities.append(self)
-            self._WorkTasks.append(obj)
+            if obj not in self._WorkTasks:
+                self._WorkTasks.append(obj)
 
     def removeWorkTasks(self, *WorkTasks):
         for obj in WorkTasks:
@@ -131,7 +132,8 @@ class Capability(IdentifiedObject):
         for obj in Crafts:
             if self not in obj._Capabilities:
                 obj._Capabilities.append(self)
-            self._Crafts.append(obj)
+            if obj not in self._Crafts:
+                self._Crafts.append(obj)
 
     def removeCrafts(self, *Crafts):
         for obj in Crafts:
diff --git a/CIM15/IEC61970/Informative/InfWork/CompatibleUnit.py b/CIM15/IEC61970/Informative/InfWork/CompatibleUnit.py
index 965edcb..e2ee6c4 100644
--- a/CIM15/IEC61970/Informative/InfWork/CompatibleUnit.py
+++ b/CIM15/IEC61970/Informative/InfWork/CompatibleUnit.py
@@ -110,7 +110,8 @@ class CompatibleUnit(Document):
         for obj in CUWorkEquipmentItems:
             if self not in obj._CompatibleUnits:
                 obj._CompatibleUnits.append(self)
-            self._CUWorkEquipmentItems.append(obj)
+            if obj not in self._CUWorkEquipmentItems:
+                self._CUWorkEquipmentItems.append(obj)
 
     def removeCUWorkEquipmentItems(self, *CUWorkEquipmentItems):
         for obj in CUWorkEquipmentItems:
@@ -139,7 +140,8 @@ class CompatibleUnit(Document):
         for obj in DesignLocationCUs:
             if self not in obj._CompatibleUnits:
                 obj._CompatibleUnits.append(self)
-            self._DesignLocationCUs.append(obj)
+            if obj not in self._DesignLocationCUs:
+                self._DesignLocationCUs.append(obj)
 
     def removeDesignLocationCUs(self, *DesignLocationCUs):
         for obj in DesignLocationCUs:
@@ -184,7 +186,8 @@ class CompatibleUnit(Document):
         for obj in CUAssets:
             if self not in obj._CompatibleUnits:
                 obj._CompatibleUnits.append(self)
-            self._CUAssets.append(obj)
+            if obj not in self._CUAssets:
+                self._CUAssets.append(obj)
 
     def removeCUAssets(self, *CUAssets):
         for obj in CUAssets:
@@ -261,7 +264,8 @@ class CompatibleUnit(Document):
         for obj in Procedures:
             if self not in obj._CompatibleUnits:
                 obj._CompatibleUnits.append(self)
-            self._Procedures.append(obj)
+            if obj not in self._Procedures:
+                self._Procedures.append(obj)
 
     def removeProcedures(self, *Procedures):
         for obj in Procedures:
@@ -290,7 +294,8 @@ class CompatibleUnit(Document):
         for obj in CUContractorItems:
             if self not in obj._CompatibleUnits:
                 obj._CompatibleUnits.append(self)
-            self._CUContractorItems.append(obj)
+            if obj not in self._CUContractorItems:
+                self._CUContractorItems.append(obj)
 
     def removeCUContractorItems(self, *CUContractorItems):
         for obj in CUContractorItems:
@@ -319,7 +324,8 @@ class CompatibleUnit(Document):
         for obj in CUMaterialItems:
             if self not in obj._CompatibleUnits:
                 obj._CompatibleUnits.append(self)
-            self._CUMaterialItems.append(obj)
+            if obj not in self._CUMaterialItems:
+                self._CUMaterialItems.append(obj)
 
     def removeCUMaterialItems(self, *CUMaterialItems):
         for obj in CUMaterialItems:
@@ -348,7 +354,8 @@ class CompatibleUnit(Document):
         for obj in CULaborItems:
             if self not in obj._CompatibleUnits:
                 obj._CompatibleUnits.append(self)
-            self._CULaborItems.append(obj)
+            if obj not in self._CULaborItems:
+                self._CULaborItems.append(obj)
 
     def removeCULaborItems(self, *CULaborItems):
         for obj in CULaborItems:
diff --git a/CIM15/IEC61970/Informative/InfWork/ConditionFactor.py b/CIM15/IEC61970/Informative/InfWork/ConditionFactor.py
index b79e87b..e557001 100644
--- a/CIM15/IEC61970/Informative/InfWork/ConditionFactor.py
+++ b/CIM15/IEC61970/Informative/InfWork/ConditionFactor.py
@@ -81,7 +81,8 @@ class ConditionFactor(IdentifiedObject):
         for obj in Designs:
             if self not in obj._ConditionFactors:
                 obj._ConditionFactors.append(self)
-            self._Designs.append(obj)
+            if obj not in self._Designs:
+                self._Designs.append(obj)
 
     def removeDesigns(self, *Designs):
         for obj in Designs:
@@ -110,7 +111,8 @@ class ConditionFactor(IdentifiedObject):
         for obj in DesignLocations:
             if self not in obj._ConditionFactors:
                 obj._ConditionFactors.append(self)
-            self._DesignLocations.append(obj)
+            if obj not in self._DesignLocations:
+                self._DesignLocations.append(obj)
 
     def removeDesignLocations(self, *DesignLocations):
         for obj in DesignLocations:
@@ -141,7 +143,8 @@ class ConditionFactor(IdentifiedObject):
         for obj in DesignLocationCUs:
             if self not in obj._ConditionFactors:
                 obj._ConditionFactors.append(self)
-            self._DesignLocationCUs.append(obj)
+            if obj not in self._DesignLocationCUs:
+                self._DesignLocationCUs.append(obj)
 
     def removeDesignLocationCUs(self, *DesignLocationCUs):
         for obj in DesignLocationCUs:
diff --git a/CIM15/IEC61970/Informative/InfWork/ContractorItem.py b/CIM15/IEC61970/Informative/InfWork/ContractorItem.py
index e48145d..d732ced 100644
--- a/CIM15/IEC61970/Informative/InfWork/ContractorItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/ContractorItem.py
@@ -101,7 +101,8 @@ class ContractorItem(IdentifiedObject):
         for obj in ErpPayables:
             if self not in obj._ContractorItems:
                 obj._ContractorItems.append(self)
-            self._ErpPayables.append(obj)
+            if obj not in self._ErpPayables:
+                self._ErpPayables.append(obj)
 
     def removeErpPayables(self, *ErpPayables):
         for obj in ErpPayables:
diff --git a/CIM15/IEC61970/Informative/InfWork/CostType.py b/CIM15/IEC61970/Informative/InfWork/CostType.py
index c58faf0..fc8d6c8 100644
--- a/CIM15/IEC61970/Informative/InfWork/CostType.py
+++ b/CIM15/IEC61970/Informative/InfWork/CostType.py
@@ -97,7 +97,8 @@ class CostType(IdentifiedObject):
         for obj in ErpJournalEntries:
             if self not in obj._CostTypes:
                 obj._CostTypes.append(self)
-            self._ErpJournalEntries.append(obj)
+            if obj not in self._ErpJournalEntries:
+                self._ErpJournalEntries.append(obj)
 
     def removeErpJournalEntries(self, *ErpJournalEntries):
         for obj in ErpJournalEntries:
diff --git a/CIM15/IEC61970/Informative/InfWork/Crew.py b/CIM15/IEC61970/Informative/InfWork/Crew.py
index 1144dbf..28f9022 100644
--- a/CIM15/IEC61970/Informative/InfWork/Crew.py
+++ b/CIM15/IEC61970/Informative/InfWork/Crew.py
@@ -136,7 +136,8 @@ class Crew(IdentifiedObject):
         for obj in SwitchingSchedules:
             if self not in obj._Crews:
                 obj._Crews.append(self)
-            self._SwitchingSchedules.append(obj)
+            if obj not in self._SwitchingSchedules:
+                self._SwitchingSchedules.append(obj)
 
     def removeSwitchingSchedules(self, *SwitchingSchedules):
         for obj in SwitchingSchedules:
@@ -203,7 +204,8 @@ class Crew(IdentifiedObject):
         for obj in CrewMembers:
             if self not in obj._Crews:
                 obj._Crews.append(self)
-            self._CrewMembers.append(obj)
+            if obj not in self._CrewMembers:
+                self._CrewMembers.append(obj)
 
     def removeCrewMembers(self, *CrewMembers):
         for obj in CrewMembers:
@@ -232,7 +234,8 @@ class Crew(IdentifiedObject):
         for obj in OutageSteps:
             if self not in obj._Crews:
                 obj._Crews.append(self)
-            self._OutageSteps.append(obj)
+            if obj not in self._OutageSteps:
+                self._OutageSteps.append(obj)
 
     def removeOutageSteps(self, *OutageSteps):
         for obj in OutageSteps:
@@ -283,7 +286,8 @@ class Crew(IdentifiedObject):
         for obj in Assignments:
             if self not in obj._Crews:
                 obj._Crews.append(self)
-            self._Assignments.append(obj)
+            if obj not in self._Assignments:
+                self._Assignments.append(obj)
 
     def removeAssignments(self, *Assignments):
         for obj in Assignments:
@@ -312,7 +316,8 @@ class Crew(IdentifiedObject):
         for obj in Locations:
             if self not in obj._Crews:
                 obj._Crews.append(self)
-            self._Locations.append(obj)
+            if obj not in self._Locations:
+                self._Locations.append(obj)
 
     def removeLocations(self, *Locations):
         for obj in Locations:
@@ -342,7 +347,8 @@ class Crew(IdentifiedObject):
         for obj in WorkTasks:
             if self not in obj._Crews:
                 obj._Crews.append(self)
-            self._WorkTasks.append(obj)
+            if obj not in self._WorkTasks:
+                self._WorkTasks.append(obj)
 
     def removeWorkTasks(self, *WorkTasks):
         for obj in WorkTasks:
@@ -371,7 +377,8 @@ class Crew(IdentifiedObject):
         for obj in Organisations:
             if self not in obj._Crews:
                 obj._Crews.append(self)
-            self._Organisations.append(obj)
+            if obj not in self._Organisations:
+                self._Organisations.append(obj)
 
     def removeOrganisations(self, *Organisations):
         for obj in Organisations:
@@ -400,7 +407,8 @@ class Crew(IdentifiedObject):
         for obj in ShiftPatterns:
             if self not in obj._Crews:
                 obj._Crews.append(self)
-            self._ShiftPatterns.append(obj)
+            if obj not in self._ShiftPatterns:
+                self._ShiftPatterns.append(obj)
 
     def removeShiftPatterns(self, *ShiftPatterns):
         for obj in ShiftPatterns:
diff --git a/CIM15/IEC61970/Informative/InfWork/Design.py b/CIM15/IEC61970/Informative/InfWork/Design.py
index c03dae1..edf21b4 100644
--- a/CIM15/IEC61970/Informative/InfWork/Design.py
+++ b/CIM15/IEC61970/Informative/InfWork/Design.py
@@ -102,7 +102,8 @@ class Design(Document):
         for obj in DesignLocations:
             if self not in obj._Designs:
                 obj._Designs.append(self)
-            self._DesignLocations.append(obj)
+            if obj not in self._DesignLocations:
+                self._DesignLocations.append(obj)
 
     def removeDesignLocations(self, *DesignLocations):
         for obj in DesignLocations:
@@ -152,7 +153,8 @@ class Design(Document):
         for obj in ConditionFactors:
             if self not in obj._Designs:
                 obj._Designs.append(self)
-            self._ConditionFactors.append(obj)
+            if obj not in self._ConditionFactors:
+                self._ConditionFactors.append(obj)
 
     def removeConditionFactors(self, *ConditionFactors):
         for obj in ConditionFactors:
@@ -239,7 +241,8 @@ class Design(Document):
         for obj in DesignLocationsCUs:
             if self not in obj._Designs:
                 obj._Designs.append(self)
-            self._DesignLocationsCUs.append(obj)
+            if obj not in self._DesignLocationsCUs:
+                self._DesignLocationsCUs.append(obj)
 
     def removeDesignLocationsCUs(self, *DesignLocationsCUs):
         for obj in DesignLocationsCUs:
diff --git a/CIM15/IEC61970/Informative/InfWork/DesignLocation.py b/CIM15/IEC61970/Informative/InfWork/DesignLocation.py
index e459cb4..12b1891 100644
--- a/CIM15/IEC61970/Informative/InfWork/DesignLocation.py
+++ b/CIM15/IEC61970/Informative/InfWork/DesignLocation.py
@@ -120,7 +120,8 @@ class DesignLocation(IdentifiedObject):
         for obj in Designs:
             if self not in obj._DesignLocations:
                 obj._DesignLocations.append(self)
-            self._Designs.append(obj)
+            if obj not in self._Designs:
+                self._Designs.append(obj)
 
     def removeDesigns(self, *Designs):
         for obj in Designs:
@@ -170,7 +171,8 @@ class DesignLocation(IdentifiedObject):
         for obj in WorkLocations:
             if self not in obj._DesignLocations:
                 obj._DesignLocations.append(self)
-            self._WorkLocations.append(obj)
+            if obj not in self._WorkLocations:
+                self._WorkLocations.append(obj)
 
     def removeWorkLocations(self, *WorkLocations):
         for obj in WorkLocations:
@@ -199,7 +201,8 @@ class DesignLocation(IdentifiedObject):
         for obj in Diagrams:
             if self not in obj._DesignLocations:
                 obj._DesignLocations.append(self)
-            self._Diagrams.append(obj)
+            if obj not in self._Diagrams:
+                self._Diagrams.append(obj)
 
     def removeDiagrams(self, *Diagrams):
         for obj in Diagrams:
@@ -270,7 +273,8 @@ class DesignLocation(IdentifiedObject):
         for obj in ConditionFactors:
             if self not in obj._DesignLocations:
                 obj._DesignLocations.append(self)
-            self._ConditionFactors.append(obj)
+            if obj not in self._ConditionFactors:
+                self._ConditionFactors.append(obj)
 
     def removeConditionFactors(self, *ConditionFactors):
         for obj in ConditionFactors:
diff --git a/CIM15/IEC61970/Informative/InfWork/DesignLocationCU.py b/CIM15/IEC61970/Informative/InfWork/DesignLocationCU.py
index f477d66..d3e7a77 100644
--- a/CIM15/IEC61970/Informative/InfWork/DesignLocationCU.py
+++ b/CIM15/IEC61970/Informative/InfWork/DesignLocationCU.py
@@ -109,7 +109,8 @@ class DesignLocationCU(IdentifiedObject):
         for obj in ConditionFactors:
             if self not in obj._DesignLocationCUs:
                 obj._DesignLocationCUs.append(self)
-            self._ConditionFactors.append(obj)
+            if obj not in self._ConditionFactors:
+                self._ConditionFactors.append(obj)
 
     def removeConditionFactors(self, *ConditionFactors):
         for obj in ConditionFactors:
@@ -138,7 +139,8 @@ class DesignLocationCU(IdentifiedObject):
         for obj in CompatibleUnits:
             if self not in obj._DesignLocationCUs:
                 obj._DesignLocationCUs.append(self)
-            self._CompatibleUnits.append(obj)
+            if obj not in self._CompatibleUnits:
+                self._CompatibleUnits.append(obj)
 
     def removeCompatibleUnits(self, *CompatibleUnits):
         for obj in CompatibleUnits:
@@ -167,7 +169,8 @@ class DesignLocationCU(IdentifiedObject):
         for obj in WorkTasks:
             if self not in obj._DesignLocationCUs:
                 obj._DesignLocationCUs.append(self)
-            self._WorkTasks.append(obj)
+            if obj not in self._WorkTasks:
+                self._WorkTasks.append(obj)
 
     def removeWorkTasks(self, *WorkTasks):
         for obj in WorkTasks:
@@ -196,7 +199,8 @@ class DesignLocationCU(IdentifiedObject):
         for obj in Designs:
             if self not in obj._DesignLocationsCUs:
                 obj._DesignLocationsCUs.append(self)
-            self._Designs.append(obj)
+            if obj not in self._Designs:
+                self._Designs.append(obj)
 
     def removeDesigns(self, *Designs):
         for obj in Designs:
@@ -225,7 +229,8 @@ class DesignLocationCU(IdentifiedObject):
         for obj in CUGroups:
             if self not in obj._DesignLocationCUs:
                 obj._DesignLocationCUs.append(self)
-            self._CUGroups.append(obj)
+            if obj not in self._CUGroups:
+                self._CUGroups.append(obj)
 
     def removeCUGroups(self, *CUGroups):
         for obj in CUGroups:
diff --git a/CIM15/IEC61970/Informative/InfWork/LaborItem.py b/CIM15/IEC61970/Informative/InfWork/LaborItem.py
index b4a0217..2c40e77 100644
--- a/CIM15/IEC61970/Informative/InfWork/LaborItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/LaborItem.py
@@ -89,7 +89,8 @@ class LaborItem(IdentifiedObject):
         for obj in ErpPersons:
             if self not in obj._LaborItems:
                 obj._LaborItems.append(self)
-            self._ErpPersons.append(obj)
+            if obj not in self._ErpPersons:
+                self._ErpPersons.append(obj)
 
     def removeErpPersons(self, *ErpPersons):
         for obj in ErpPersons:
diff --git a/CIM15/IEC61970/Informative/InfWork/MaterialItem.py b/CIM15/IEC61970/Informative/InfWork/MaterialItem.py
index 978a334..4e33ae2 100644
--- a/CIM15/IEC61970/Informative/InfWork/MaterialItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/MaterialItem.py
@@ -184,7 +184,8 @@ class MaterialItem(IdentifiedObject):
         for obj in ErpRecDelvLineItems:
             if self not in obj._MaterialItems:
                 obj._MaterialItems.append(self)
-            self._ErpRecDelvLineItems.append(obj)
+            if obj not in self._ErpRecDelvLineItems:
+                self._ErpRecDelvLineItems.append(obj)
 
     def removeErpRecDelvLineItems(self, *ErpRecDelvLineItems):
         for obj in ErpRecDelvLineItems:
diff --git a/CIM15/IEC61970/Informative/InfWork/Project.py b/CIM15/IEC61970/Informative/InfWork/Project.py
index 013b807..a4b21c0 100644
--- a/CIM15/IEC61970/Informative/InfWork/Project.py
+++ b/CIM15/IEC61970/Informative/InfWork/Project.py
@@ -139,7 +139,8 @@ class Project(Document):
         for obj in Requests:
             if self not in obj._Projects:
                 obj._Projects.append(self)
-            self._Requests.append(obj)
+            if obj not in self._Requests:
+                self._Requests.append(obj)
 
     def removeRequests(self, *Requests):
         for obj in Requests:
diff --git a/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py b/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py
index baea740..e649c02 100644
--- a/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py
+++ b/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py
@@ -108,7 +108,8 @@ class PropertyUnit(IdentifiedObject):
         for obj in CUMaterialItems:
             if self not in obj._PropertyUnits:
                 obj._PropertyUnits.append(self)
-            self._CUMaterialItems.append(obj)
+            if obj not in self._CUMaterialItems:
+                self._CUMaterialItems.append(obj)
 
     def removeCUMaterialItems(self, *CUMaterialItems):
         for obj in CUMaterialItems:
@@ -137,7 +138,8 @@ class PropertyUnit(IdentifiedObject):
         for obj in WorkCostDetails:
             if self not in obj._PropertyUnits:
                 obj._PropertyUnits.append(self)
-            self._WorkCostDetails.append(obj)
+            if obj not in self._WorkCostDetails:
+                self._WorkCostDetails.append(obj)
 
     def removeWorkCostDetails(self, *WorkCostDetails):
         for obj in WorkCostDetails:
diff --git a/CIM15/IEC61970/Informative/InfWork/QualificationRequirement.py b/CIM15/IEC61970/Informative/InfWork/QualificationRequirement.py
index ace76f3..38e908e 100644
--- a/CIM15/IEC61970/Informative/InfWork/QualificationRequirement.py
+++ b/CIM15/IEC61970/Informative/InfWork/QualificationRequirement.py
@@ -78,7 +78,8 @@ class QualificationRequirement(IdentifiedObject):
         for obj in WorkTasks:
             if self not in obj._QualificationRequirements:
                 obj._QualificationRequirements.append(self)
-            self._WorkTasks.append(obj)
+            if obj not in self._WorkTasks:
+                self._WorkTasks.append(obj)
 
     def removeWorkTasks(self, *WorkTasks):
         for obj in WorkTasks:
@@ -107,7 +108,8 @@ class QualificationRequirement(IdentifiedObject):
         for obj in Skills:
             if self not in obj._QualificationRequirements:
                 obj._QualificationRequirements.append(self)
-            self._Skills.append(obj)
+            if obj not in self._Skills:
+                self._Skills.append(obj)
 
     def removeSkills(self, *Skills):
         for obj in Skills:
@@ -136,7 +138,8 @@ class QualificationRequirement(IdentifiedObject):
         for obj in CULaborItems:
             if self not in obj._QualificationRequirements:
                 obj._QualificationRequirements.append(self)
-            self._CULaborItems.append(obj)
+            if obj not in self._CULaborItems:
+                self._CULaborItems.append(obj)
 
     def removeCULaborItems(self, *CULaborItems):
         for obj in CULaborItems:
@@ -165,7 +168,8 @@ class QualificationRequirement(IdentifiedObject):
         for obj in Specifications:
             if self not in obj._QualificationRequirements:
                 obj._QualificationRequirements.append(self)
-            self._Specifications.append(obj)
+            if obj not in self._Specifications:
+                self._Specifications.append(obj)
 
     def removeSpecifications(self, *Specifications):
         for obj in Specifications:
diff --git a/CIM15/IEC61970/Informative/InfWork/Request.py b/CIM15/IEC61970/Informative/InfWork/Request.py
index 7d3179f..4125085 100644
--- a/CIM15/IEC61970/Informative/InfWork/Request.py
+++ b/CIM15/IEC61970/Informative/InfWork/Request.py
@@ -101,7 +101,8 @@ class Request(Document):
         for obj in Projects:
             if self not in obj._Requests:
                 obj._Requests.append(self)
-            self._Projects.append(obj)
+            if obj not in self._Projects:
+                self._Projects.append(obj)
 
     def removeProjects(self, *Projects):
         for obj in Projects:
diff --git a/CIM15/IEC61970/Informative/InfWork/ShiftPattern.py b/CIM15/IEC61970/Informative/InfWork/ShiftPattern.py
index f4d2cd2..b2d4d02 100644
--- a/CIM15/IEC61970/Informative/InfWork/ShiftPattern.py
+++ b/CIM15/IEC61970/Informative/InfWork/ShiftPattern.py
@@ -76,7 +76,8 @@ class ShiftPattern(IdentifiedObject):
         for obj in Crews:
             if self not in obj._ShiftPatterns:
                 obj._ShiftPatterns.append(self)
-            self._Crews.append(obj)
+            if obj not in self._Crews:
+                self._Crews.append(obj)
 
     def removeCrews(self, *Crews):
         for obj in Crews:
diff --git a/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py b/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py
index 419d2f9..8c0dc85 100644
--- a/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py
+++ b/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py
@@ -142,7 +142,8 @@ class WorkCostDetail(Document):
         for obj in Works:
             if self not in obj._WorkCostDetails:
                 obj._WorkCostDetails.append(self)
-            self._Works.append(obj)
+            if obj not in self._Works:
+                self._Works.append(obj)
 
     def removeWorks(self, *Works):
         for obj in Works:
@@ -223,7 +224,8 @@ class WorkCostDetail(Document):
         for obj in PropertyUnits:
             if self not in obj._WorkCostDetails:
                 obj._WorkCostDetails.append(self)
-            self._PropertyUnits.append(obj)
+            if obj not in self._PropertyUnits:
+                self._PropertyUnits.append(obj)
 
     def removePropertyUnits(self, *PropertyUnits):
         for obj in PropertyUnits:
diff --git a/CIM15/IEC61970/Informative/InfWork/WorkLocation.py b/CIM15/IEC61970/Informative/InfWork/WorkLocation.py
index 73ea31b..21395eb 100644
--- a/CIM15/IEC61970/Informative/InfWork/WorkLocation.py
+++ b/CIM15/IEC61970/Informative/InfWork/WorkLocation.py
@@ -98,7 +98,8 @@ class WorkLocation(Location):
         for obj in DesignLocations:
             if self not in obj._WorkLocations:
                 obj._WorkLocations.append(self)
-            self._DesignLocations.append(obj)
+            if obj not in self._DesignLocations:
+                self._DesignLocations.append(obj)
 
     def removeDesignLocations(self, *DesignLocations):
         for obj in DesignLocations:
diff --git a/CIM15/IEC61970/Informative/InfWork/WorkTask.py b/CIM15/IEC61970/Informative/InfWork/WorkTask.py
index 7b66c38..6900f0c 100644
--- a/CIM15/IEC61970/Informative/InfWork/WorkTask.py
+++ b/CIM15/IEC61970/Informative/InfWork/WorkTask.py
@@ -198,7 +198,8 @@ class WorkTask(Document):
         for obj in Crews:
             if self not in obj._WorkTasks:
                 obj._WorkTasks.append(self)
-            self._Crews.append(obj)
+            if obj not in self._Crews:
+                self._Crews.append(obj)
 
     def removeCrews(self, *Crews):
         for obj in Crews:
@@ -259,7 +260,8 @@ class WorkTask(Document):
         for obj in DesignLocationCUs:
             if self not in obj._WorkTasks:
                 obj._WorkTasks.append(self)
-            self._DesignLocationCUs.append(obj)
+            if obj not in self._DesignLocationCUs:
+                self._DesignLocationCUs.append(obj)
 
     def removeDesignLocationCUs(self, *DesignLocationCUs):
         for obj in DesignLocationCUs:
@@ -362,7 +364,8 @@ class WorkTask(Document):
         for obj in QualificationRequirements:
             if self not in obj._WorkTasks:
                 obj._WorkTasks.append(self)
-            self._QualificationRequirements.append(obj)
+            if obj not in self._QualificationRequirements:
+                self._QualificationRequirements.append(obj)
 
     def removeQualificationRequirements(self, *QualificationRequirements):
         for obj in QualificationRequirements:
@@ -391,7 +394,8 @@ class WorkTask(Document):
         for obj in Capabilities:
             if self not in obj._WorkTasks:
                 obj._WorkTasks.append(self)
-            self._Capabilities.append(obj)
+            if obj not in self._Capabilities:
+                self._Capabilities.append(obj)
 
     def removeCapabilities(self, *Capabilities):
         for obj in Capabilities:
diff --git a/CIM15/IEC61970/Meas/Accumulator.py b/CIM15/IEC61970/Meas/Accumulator.py
index 3ff0fed..afca00a 100644
--- a/CIM15/IEC61970/Meas/Accumulator.py
+++ b/CIM15/IEC61970/Meas/Accumulator.py
@@ -71,7 +71,8 @@ class Accumulator(Measurement):
         for obj in LimitSets:
             if self not in obj._Measurements:
                 obj._Measurements.append(self)
-            self._LimitSets.append(obj)
+            if obj not in self._LimitSets:
+                self._LimitSets.append(obj)
 
     def removeLimitSets(self, *LimitSets):
         for obj in LimitSets:
diff --git a/CIM15/IEC61970/Meas/AccumulatorLimitSet.py b/CIM15/IEC61970/Meas/AccumulatorLimitSet.py
index f83fb9b..681ec99 100644
--- a/CIM15/IEC61970/Meas/AccumulatorLimitSet.py
+++ b/CIM15/IEC61970/Meas/AccumulatorLimitSet.py
@@ -89,7 +89,8 @@ class AccumulatorLimitSet(LimitSet):
         for obj in Measurements:
             if self not in obj._LimitSets:
                 obj._LimitSets.append(self)
-            self._Measurements.append(obj)
+            if obj not in self._Measurements:
+                self._Measurements.append(obj)
 
     def removeMeasurements(self, *Measurements):
         for obj in Measurements:
diff --git a/CIM15/IEC61970/Meas/Analog.py b/CIM15/IEC61970/Meas/Analog.py
index 959f941..267e0be 100644
--- a/CIM15/IEC61970/Meas/Analog.py
+++ b/CIM15/IEC61970/Meas/Analog.py
@@ -87,7 +87,8 @@ class Analog(Measurement):
         for obj in LimitSets:
             if self not in obj._Measurements:
                 obj._Measurements.append(self)
-            self._LimitSets.append(obj)
+            if obj not in self._LimitSets:
+                self._LimitSets.append(obj)
 
     def removeLimitSets(self, *LimitSets):
         for obj in LimitSets:
diff --git a/CIM15/IEC61970/Meas/AnalogLimitSet.py b/CIM15/IEC61970/Meas/AnalogLimitSet.py
index 86cb41c..6b08b8d 100644
--- a/CIM15/IEC61970/Meas/AnalogLimitSet.py
+++ b/CIM15/IEC61970/Meas/AnalogLimitSet.py
@@ -89,7 +89,8 @@ class AnalogLimitSet(LimitSet):
         for obj in Measurements:
             if self not in obj._LimitSets:
                 obj._LimitSets.append(self)
-            self._Measurements.append(obj)
+            if obj not in self._Measurements:
+                self._Measurements.append(obj)
 
     def removeMeasurements(self, *Measurements):
         for obj in Measurements:
diff --git a/CIM15/IEC61970/Meas/Limit.py b/CIM15/IEC61970/Meas/Limit.py
index 5b0cf9e..4f34f20 100644
--- a/CIM15/IEC61970/Meas/Limit.py
+++ b/CIM15/IEC61970/Meas/Limit.py
@@ -62,7 +62,8 @@ class Limit(IdentifiedObject):
         for obj in Procedures:
             if self not in obj._Limits:
                 obj._Limits.append(self)
-            self._Procedures.append(obj)
+            if obj not in self._Procedures:
+                self._Procedures.append(obj)
 
     def removeProcedures(self, *Procedures):
         for obj in Procedures:
diff --git a/CIM15/IEC61970/Meas/Measurement.py b/CIM15/IEC61970/Meas/Measurement.py
index 3ce3f23..d340780 100644
--- a/CIM15/IEC61970/Meas/Measurement.py
+++ b/CIM15/IEC61970/Meas/Measurement.py
@@ -128,7 +128,8 @@ class Measurement(IdentifiedObject):
         for obj in Locations:
             if self not in obj._Measurements:
                 obj._Measurements.append(self)
-            self._Locations.append(obj)
+            if obj not in self._Locations:
+                self._Locations.append(obj)
 
     def removeLocations(self, *Locations):
         for obj in Locations:
@@ -174,7 +175,8 @@ class Measurement(IdentifiedObject):
         for obj in Documents:
             if self not in obj._Measurements:
                 obj._Measurements.append(self)
-            self._Documents.append(obj)
+            if obj not in self._Documents:
+                self._Documents.append(obj)
 
     def removeDocuments(self, *Documents):
         for obj in Documents:
diff --git a/CIM15/IEC61970/Meas/MeasurementValue.py b/CIM15/IEC61970/Meas/MeasurementValue.py
index 2a3e9a1..057159e 100644
--- a/CIM15/IEC61970/Meas/MeasurementValue.py
+++ b/CIM15/IEC61970/Meas/MeasurementValue.py
@@ -127,7 +127,8 @@ class MeasurementValue(IdentifiedObject):
         for obj in ProcedureDataSets:
             if self not in obj._MeasurementValues:
                 obj._MeasurementValues.append(self)
-            self._ProcedureDataSets.append(obj)
+            if obj not in self._ProcedureDataSets:
+                self._ProcedureDataSets.append(obj)
 
     def removeProcedureDataSets(self, *ProcedureDataSets):
         for obj in ProcedureDataSets:
diff --git a/CIM15/IEC61970/Outage/SwitchingOperation.py b/CIM15/IEC61970/Outage/SwitchingOperation.py
index 692c186..b86e3f4 100644
--- a/CIM15/IEC61970/Outage/SwitchingOperation.py
+++ b/CIM15/IEC61970/Outage/SwitchingOperation.py
@@ -92,7 +92,8 @@ class SwitchingOperation(IdentifiedObject):
         for obj in Switches:
             if self not in obj._SwitchingOperations:
                 obj._SwitchingOperations.append(self)
-            self._Switches.append(obj)
+            if obj not in self._Switches:
+                self._Switches.append(obj)
 
     def removeSwitches(self, *Switches):
         for obj in Switches:
diff --git a/CIM15/IEC61970/Protection/ProtectionEquipment.py b/CIM15/IEC61970/Protection/ProtectionEquipment.py
index 8970b00..5d370e6 100644
--- a/CIM15/IEC61970/Protection/ProtectionEquipment.py
+++ b/CIM15/IEC61970/Protection/ProtectionEquipment.py
@@ -91,7 +91,8 @@ class ProtectionEquipment(Equipment):
         for obj in ConductingEquipments:
             if self not in obj._ProtectionEquipments:
                 obj._ProtectionEquipments.append(self)
-            self._ConductingEquipments.append(obj)
+            if obj not in self._ConductingEquipments:
+                self._ConductingEquipments.append(obj)
 
     def removeConductingEquipments(self, *ConductingEquipments):
         for obj in ConductingEquipments:
@@ -121,7 +122,8 @@ class ProtectionEquipment(Equipment):
         for obj in ProtectedSwitches:
             if self not in obj._ProtectionEquipments:
                 obj._ProtectionEquipments.append(self)
-            self._ProtectedSwitches.append(obj)
+            if obj not in self._ProtectedSwitches:
+                self._ProtectedSwitches.append(obj)
 
     def removeProtectedSwitches(self, *ProtectedSwitches):
         for obj in ProtectedSwitches:
diff --git a/CIM15/IEC61970/SCADA/CommunicationLink.py b/CIM15/IEC61970/SCADA/CommunicationLink.py
index b1f1708..ffeffa4 100644
--- a/CIM15/IEC61970/SCADA/CommunicationLink.py
+++ b/CIM15/IEC61970/SCADA/CommunicationLink.py
@@ -63,7 +63,8 @@ class CommunicationLink(PowerSystemResource):
         for obj in RemoteUnits:
             if self not in obj._CommunicationLinks:
                 obj._CommunicationLinks.append(self)
-            self._RemoteUnits.append(obj)
+            if obj not in self._RemoteUnits:
+                self._RemoteUnits.append(obj)
 
     def removeRemoteUnits(self, *RemoteUnits):
         for obj in RemoteUnits:
diff --git a/CIM15/IEC61970/SCADA/RemoteUnit.py b/CIM15/IEC61970/SCADA/RemoteUnit.py
index 7c2e0d7..ee21a1a 100644
--- a/CIM15/IEC61970/SCADA/RemoteUnit.py
+++ b/CIM15/IEC61970/SCADA/RemoteUnit.py
@@ -93,7 +93,8 @@ class RemoteUnit(PowerSystemResource):
         for obj in CommunicationLinks:
             if self not in obj._RemoteUnits:
                 obj._RemoteUnits.append(self)
-            self._CommunicationLinks.append(obj)
+            if obj not in self._CommunicationLinks:
+                self._CommunicationLinks.append(obj)
 
     def removeCommunicationLinks(self, *CommunicationLinks):
         for obj in CommunicationLinks:
diff --git a/CIM15/IEC61970/Wires/ACLineSegment.py b/CIM15/IEC61970/Wires/ACLineSegment.py
index 330b0f9..3413757 100644
--- a/CIM15/IEC61970/Wires/ACLineSegment.py
+++ b/CIM15/IEC61970/Wires/ACLineSegment.py
@@ -275,7 +275,8 @@ class ACLineSegment(Conductor):
         for obj in CurrentTemperatureCurves:
             if self not in obj._ACLineSegments:
                 obj._ACLineSegments.append(self)
-            self._CurrentTemperatureCurves.append(obj)
+            if obj not in self._CurrentTemperatureCurves:
+                self._CurrentTemperatureCurves.append(obj)
 
     def removeCurrentTemperatureCurves(self, *CurrentTemperatureCurves):
         for obj in CurrentTemperatureCurves:
diff --git a/CIM15/IEC61970/Wires/CurrentTemperatureCurve.py b/CIM15/IEC61970/Wires/CurrentTemperatureCurve.py
index 3f4421c..4db5b22 100644
--- a/CIM15/IEC61970/Wires/CurrentTemperatureCurve.py
+++ b/CIM15/IEC61970/Wires/CurrentTemperatureCurve.py
@@ -60,7 +60,8 @@ class CurrentTemperatureCurve(Curve):
         for obj in ACLineSegments:
             if self not in obj._CurrentTemperatureCurves:
                 obj._CurrentTemperatureCurves.append(self)
-            self._ACLineSegments.append(obj)
+            if obj not in self._ACLineSegments:
+                self._ACLineSegments.append(obj)
 
     def removeACLineSegments(self, *ACLineSegments):
         for obj in ACLineSegments:
diff --git a/CIM15/IEC61970/Wires/ProtectedSwitch.py b/CIM15/IEC61970/Wires/ProtectedSwitch.py
index 2ec7960..0ddaef5 100644
--- a/CIM15/IEC61970/Wires/ProtectedSwitch.py
+++ b/CIM15/IEC61970/Wires/ProtectedSwitch.py
@@ -71,7 +71,8 @@ class ProtectedSwitch(Switch):
         for obj in ProtectionEquipments:
             if self not in obj._ProtectedSwitches:
                 obj._ProtectedSwitches.append(self)
-            self._ProtectionEquipments.append(obj)
+            if obj not in self._ProtectionEquipments:
+                self._ProtectionEquipments.append(obj)
 
     def removeProtectionEquipments(self, *ProtectionEquipments):
         for obj in ProtectionEquipments:
diff --git a/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py b/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py
index c736668..2041437 100644
--- a/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py
+++ b/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py
@@ -97,7 +97,8 @@ class ReactiveCapabilityCurve(Curve):
         for obj in SynchronousMachines:
             if self not in obj._ReactiveCapabilityCurves:
                 obj._ReactiveCapabilityCurves.append(self)
-            self._SynchronousMachines.append(obj)
+            if obj not in self._SynchronousMachines:
+                self._SynchronousMachines.append(obj)
 
     def removeSynchronousMachines(self, *SynchronousMachines):
         for obj in SynchronousMachines:
diff --git a/CIM15/IEC61970/Wires/Switch.py b/CIM15/IEC61970/Wires/Switch.py
index af98de9..cfd14ef 100644
--- a/CIM15/IEC61970/Wires/Switch.py
+++ b/CIM15/IEC61970/Wires/Switch.py
@@ -103,7 +103,8 @@ class Switch(ConductingEquipment):
         for obj in SwitchingOperations:
             if self not in obj._Switches:
                 obj._Switches.append(self)
-            self._SwitchingOperations.append(obj)
+            if obj not in self._SwitchingOperations:
+                self._SwitchingOperations.append(obj)
 
     def removeSwitchingOperations(self, *SwitchingOperations):
         for obj in SwitchingOperations:
@@ -132,7 +133,8 @@ class Switch(ConductingEquipment):
         for obj in LoadMgmtFunctions:
             if self not in obj._Switches:
                 obj._Switches.append(self)
-            self._LoadMgmtFunctions.append(obj)
+            if obj not in self._LoadMgmtFunctions:
+                self._LoadMgmtFunctions.append(obj)
 
     def removeLoadMgmtFunctions(self, *LoadMgmtFunctions):
         for obj in LoadMgmtFunctions:
@@ -161,7 +163,8 @@ class Switch(ConductingEquipment):
         for obj in ConnectDisconnectFunctions:
             if self not in obj._Switches:
                 obj._Switches.append(self)
-            self._ConnectDisconnectFunctions.append(obj)
+            if obj not in self._ConnectDisconnectFunctions:
+                self._ConnectDisconnectFunctions.append(obj)
 
     def removeConnectDisconnectFunctions(self, *ConnectDisconnectFunctions):
         for obj in ConnectDisconnectFunctions:
diff --git a/CIM15/IEC61970/Wires/SynchronousMachine.py b/CIM15/IEC61970/Wires/SynchronousMachine.py
index 38d2cc1..7fa8007 100644
--- a/CIM15/IEC61970/Wires/SynchronousMachine.py
+++ b/CIM15/IEC61970/Wires/SynchronousMachine.py
@@ -199,7 +199,8 @@ class SynchronousMachine(RegulatingCondEq):
         for obj in PrimeMovers:
             if self not in obj._SynchronousMachines:
                 obj._SynchronousMachines.append(self)
-            self._PrimeMovers.append(obj)
+            if obj not in self._PrimeMovers:
+                self._PrimeMovers.append(obj)
 
     def removePrimeMovers(self, *PrimeMovers):
         for obj in PrimeMovers:
@@ -246,7 +247,8 @@ class SynchronousMachine(RegulatingCondEq):
         for obj in ReactiveCapabilityCurves:
             if self not in obj._SynchronousMachines:
                 obj._SynchronousMachines.append(self)
-            self._ReactiveCapabilityCurves.append(obj)
+            if obj not in self._ReactiveCapabilityCurves:
+                self._ReactiveCapabilityCurves.append(obj)
 
     def removeReactiveCapabilityCurves(self, *ReactiveCapabilityCurves):
         for obj in ReactiveCapabilityCurves:
diff --git a/CIM15/IEC61970/Wires/TransformerEnd.py b/CIM15/IEC61970/Wires/TransformerEnd.py
index 62a12ba..e4a319b 100644
--- a/CIM15/IEC61970/Wires/TransformerEnd.py
+++ b/CIM15/IEC61970/Wires/TransformerEnd.py
@@ -292,7 +292,8 @@ class TransformerEnd(IdentifiedObject):
         for obj in ToMeshImpedance:
             if self not in obj._ToTransformerEnd:
                 obj._ToTransformerEnd.append(self)
-            self._ToMeshImpedance.append(obj)
+            if obj not in self._ToMeshImpedance:
+                self._ToMeshImpedance.append(obj)
 
     def removeToMeshImpedance(self, *ToMeshImpedance):
         for obj in ToMeshImpedance:
diff --git a/CIM15/IEC61970/Wires/TransformerMeshImpedance.py b/CIM15/IEC61970/Wires/TransformerMeshImpedance.py
index 7c28e9e..35567b4 100644
--- a/CIM15/IEC61970/Wires/TransformerMeshImpedance.py
+++ b/CIM15/IEC61970/Wires/TransformerMeshImpedance.py
@@ -108,7 +108,8 @@ class TransformerMeshImpedance(IdentifiedObject):
         for obj in ToTransformerEnd:
             if self not in obj._ToMeshImpedance:
                 obj._ToMeshImpedance.append(self)
-            self._ToTransformerEnd.append(obj)
+            if obj not in self._ToTransformerEnd:
+                self._ToTransformerEnd.append(obj)
 
     def removeToTransformerEnd(self, *ToTransformerEnd):
         for obj in ToTransformerEnd:
@@ -138,7 +139,8 @@ class TransformerMeshImpedance(IdentifiedObject):
         for obj in ToTransformerEndInfo:
             if self not in obj._ToMeshImpedance:
                 obj._ToMeshImpedance.append(self)
-            self._ToTransformerEndInfo.append(obj)
+            if obj not in self._ToTransformerEndInfo:
+                self._ToTransformerEndInfo.append(obj)
 
     def removeToTransformerEndInfo(self, *ToTransformerEndInfo):
         for obj in ToTransformerEndInfo:
diff --git a/CIM15/IEC62325/MarketParticipant.py b/CIM15/IEC62325/MarketParticipant.py
index 899b8ab..aec67d3 100644
--- a/CIM15/IEC62325/MarketParticipant.py
+++ b/CIM15/IEC62325/MarketParticipant.py
@@ -61,7 +61,8 @@ class MarketParticipant(Organisation):
         for obj in MarketRoles:
             if self not in obj._MarketParticipants:
                 obj._MarketParticipants.append(self)
-            self._MarketRoles.append(obj)
+            if obj not in self._MarketRoles:
+                self._MarketRoles.append(obj)
 
     def removeMarketRoles(self, *MarketRoles):
         for obj in MarketRoles:
diff --git a/CIM15/IEC62325/MarketRole.py b/CIM15/IEC62325/MarketRole.py
index ee085b8..3c41dbd 100644
--- a/CIM15/IEC62325/MarketRole.py
+++ b/CIM15/IEC62325/MarketRole.py
@@ -72,7 +72,8 @@ class MarketRole(IdentifiedObject):
         for obj in MarketParticipants:
             if self not in obj._MarketRoles:
                 obj._MarketRoles.append(self)
-            self._MarketParticipants.append(obj)
+            if obj not in self._MarketParticipants:
+                self._MarketParticipants.append(obj)
 
     def removeMarketParticipants(self, *MarketParticipants):
         for obj in MarketParticipants:
-- 
2.43.0


From 7580e79a6755c6921e31c7bc772f8f174be85f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:53 +0000
Subject: [PATCH 03/31] fix: assigning a one-to-many association left the
 elements with their old owner

The setter pointed each element at the new owner without taking it out of the
previous owner's list, and kept the caller's list as its own storage, so later
changes to either list corrupted the association.  Move the elements through
the inverse property, as add* does.
---
 .../IEC61968/AssetModels/ConductorInfo.py     |  8 ++---
 .../IEC61968/AssetModels/TransformerInfo.py   |  8 ++---
 .../IEC61968/AssetModels/WindingInfo.py       | 12 +++----
 .../Balanced/IEC61968/AssetModels/WireType.py |  8 ++---
 .../Balanced/IEC61968/Common/GeoLocation.py   |  4 +--
 .../Balanced/IEC61968/Common/Location.py      |  4 +--
 .../WiresExt/DistributionTransformer.py       |  4 +--
 .../WiresExt/PerLengthPhaseImpedance.py       |  8 ++---
 .../WiresExt/PerLengthSequenceImpedance.py    |  4 +--
 .../IEC61968/WiresExt/TransformerBank.py      |  4 +--
 .../IEC61968/WiresExt/WindingPiImpedance.py   |  4 +--
 .../Balanced/IEC61970/Core/BaseVoltage.py     |  8 ++---
 .../IEC61970/Core/ConductingEquipment.py      |  4 +--
 .../Core/ConnectivityNodeContainer.py         |  4 +--
 .../IEC61970/Core/EquipmentContainer.py       |  4 +--
 .../IEC61970/Core/GeographicalRegion.py       |  4 +--
 CIM14/CDPSM/Balanced/IEC61970/Core/PSRType.py |  4 +--
 .../IEC61970/Core/SubGeographicalRegion.py    |  8 ++---
 .../Balanced/IEC61970/Core/Substation.py      |  4 +--
 .../Balanced/IEC61970/Core/VoltageLevel.py    |  4 +--
 .../Generation/Production/GeneratingUnit.py   |  4 +--
 .../LoadModel/LoadResponseCharacteristic.py   |  4 +--
 .../IEC61970/Topology/ConnectivityNode.py     |  4 +--
 .../IEC61968/AssetModels/ConductorInfo.py     |  8 ++---
 .../IEC61968/AssetModels/TransformerInfo.py   |  4 +--
 .../IEC61968/AssetModels/WindingInfo.py       | 12 +++----
 .../IEC61968/AssetModels/WireType.py          |  8 ++---
 .../IEC61968/Common/GeoLocation.py            |  4 +--
 .../IEC61968/Common/Location.py               |  4 +--
 .../WiresExt/DistributionTransformer.py       |  4 +--
 .../WiresExt/PerLengthPhaseImpedance.py       |  8 ++---
 .../WiresExt/PerLengthSequenceImpedance.py    |  4 +--
 .../IEC61968/WiresExt/TransformerBank.py      |  4 +--
 .../IEC61970/Core/BaseVoltage.py              |  8 ++---
 .../IEC61970/Core/ConductingEquipment.py      |  4 +--
 .../Core/ConnectivityNodeContainer.py         |  4 +--
 .../IEC61970/Core/EquipmentContainer.py       |  4 +--
 .../IEC61970/Core/GeographicalRegion.py       |  4 +--
 .../GIS_Connectivity/IEC61970/Core/PSRType.py |  4 +--
 .../IEC61970/Core/SubGeographicalRegion.py    |  8 ++---
 .../IEC61970/Core/Substation.py               |  4 +--
 .../IEC61970/Core/VoltageLevel.py             |  4 +--
 .../Generation/Production/GeneratingUnit.py   |  4 +--
 .../IEC61970/Topology/ConnectivityNode.py     |  4 +--
 .../IEC61968/AssetModels/ConductorInfo.py     |  8 ++---
 .../IEC61968/AssetModels/TransformerInfo.py   |  8 ++---
 .../IEC61968/AssetModels/WindingInfo.py       | 12 +++----
 .../IEC61968/AssetModels/WireType.py          |  8 ++---
 .../Unbalanced/IEC61968/Common/GeoLocation.py |  4 +--
 .../Unbalanced/IEC61968/Common/Location.py    |  4 +--
 .../WiresExt/DistributionTransformer.py       |  4 +--
 .../WiresExt/PerLengthPhaseImpedance.py       |  8 ++---
 .../WiresExt/PerLengthSequenceImpedance.py    |  4 +--
 .../IEC61968/WiresExt/TransformerBank.py      |  4 +--
 .../IEC61968/WiresExt/WindingPiImpedance.py   |  4 +--
 .../Unbalanced/IEC61970/Core/BaseVoltage.py   |  8 ++---
 .../IEC61970/Core/ConductingEquipment.py      |  4 +--
 .../Core/ConnectivityNodeContainer.py         |  4 +--
 .../IEC61970/Core/EquipmentContainer.py       |  4 +--
 .../IEC61970/Core/GeographicalRegion.py       |  4 +--
 .../CDPSM/Unbalanced/IEC61970/Core/PSRType.py |  4 +--
 .../IEC61970/Core/SubGeographicalRegion.py    |  8 ++---
 .../Unbalanced/IEC61970/Core/Substation.py    |  4 +--
 .../Unbalanced/IEC61970/Core/VoltageLevel.py  |  4 +--
 .../Generation/Production/GeneratingUnit.py   |  4 +--
 .../LoadModel/LoadResponseCharacteristic.py   |  4 +--
 .../IEC61970/Topology/ConnectivityNode.py     |  4 +--
 .../CPSM/Equipment/ControlArea/ControlArea.py |  8 ++---
 CIM14/CPSM/Equipment/Core/BaseVoltage.py      |  8 ++---
 .../Equipment/Core/ConductingEquipment.py     |  4 +--
 CIM14/CPSM/Equipment/Core/ConnectivityNode.py |  4 +--
 .../Core/ConnectivityNodeContainer.py         |  4 +--
 CIM14/CPSM/Equipment/Core/Curve.py            |  4 +--
 CIM14/CPSM/Equipment/Core/Equipment.py        |  4 +--
 .../CPSM/Equipment/Core/EquipmentContainer.py |  4 +--
 .../CPSM/Equipment/Core/GeographicalRegion.py |  4 +--
 .../Equipment/Core/PowerSystemResource.py     |  4 +--
 .../Equipment/Core/RegularIntervalSchedule.py |  4 +--
 .../Equipment/Core/SubGeographicalRegion.py   |  8 ++---
 CIM14/CPSM/Equipment/Core/Substation.py       |  4 +--
 CIM14/CPSM/Equipment/Core/Terminal.py         | 24 ++++++-------
 CIM14/CPSM/Equipment/Core/Unit.py             |  4 +--
 CIM14/CPSM/Equipment/Core/VoltageLevel.py     |  4 +--
 .../Equivalents/EquivalentNetwork.py          |  4 +--
 .../Generation/Production/GeneratingUnit.py   | 12 +++----
 .../Equipment/LoadModel/ConformLoadGroup.py   |  8 ++---
 CIM14/CPSM/Equipment/LoadModel/DayType.py     |  4 +--
 CIM14/CPSM/Equipment/LoadModel/LoadArea.py    |  4 +--
 .../LoadModel/LoadResponseCharacteristic.py   |  4 +--
 .../LoadModel/NonConformLoadGroup.py          |  8 ++---
 CIM14/CPSM/Equipment/LoadModel/Season.py      |  4 +--
 CIM14/CPSM/Equipment/LoadModel/SubLoadArea.py |  4 +--
 CIM14/CPSM/Equipment/Meas/Accumulator.py      |  4 +--
 CIM14/CPSM/Equipment/Meas/Analog.py           |  4 +--
 CIM14/CPSM/Equipment/Meas/Discrete.py         |  4 +--
 .../Equipment/Meas/MeasurementValueSource.py  |  4 +--
 .../OperationalLimits/OperationalLimitSet.py  |  4 +--
 .../CPSM/Equipment/Wires/PowerTransformer.py  |  4 +--
 .../Wires/ReactiveCapabilityCurve.py          |  4 +--
 .../CPSM/Equipment/Wires/RegulatingControl.py | 12 +++----
 CIM14/CPSM/Equipment/Wires/Switch.py          |  4 +--
 CIM14/CPSM/Equipment/Wires/TapChanger.py      |  4 +--
 .../StateVariables/TopologicalIsland.py       |  4 +--
 CIM14/CPSM/Topology/Core/BaseVoltage.py       |  4 +--
 .../CPSM/Topology/Topology/TopologicalNode.py |  8 ++---
 .../IEC61968/Common/CommonLocation.py         |  4 +--
 .../Dynamics/IEC61970/Core/CoreBaseVoltage.py |  4 +--
 .../IEC61970/Core/CoreConductingEquipment.py  |  8 ++---
 .../Dynamics/IEC61970/Core/CoreEquipment.py   |  8 ++---
 .../IEC61970/Core/CoreEquipmentContainer.py   |  4 +--
 .../Dynamics/IEC61970/Core/CorePSRType.py     |  4 +--
 .../IEC61970/Core/CorePowerSystemResource.py  | 12 +++----
 .../IEC61970/Dynamics/DynamicsBlock.py        |  8 ++---
 .../Dynamics/DynamicsBlockConnectivity.py     |  8 ++---
 .../IEC61970/Dynamics/DynamicsMetaBlock.py    | 28 +++++++--------
 .../Dynamics/DynamicsMetaBlockConOutput.py    |  4 +--
 .../Dynamics/DynamicsMetaBlockConnectable.py  | 32 ++++++++---------
 .../Dynamics/DynamicsMetaBlockConnection.py   | 12 +++----
 .../Dynamics/DynamicsMetaBlockConnectivity.py |  8 ++---
 .../DynamicsMetaBlockOutputReference.py       |  4 +--
 .../Dynamics/DynamicsMetaBlockParameter.py    |  4 +--
 .../Dynamics/DynamicsMetaBlockReference.py    | 20 +++++------
 .../InfCore/InfCoreModelingAuthoritySet.py    |  4 +--
 .../IEC61970/Wires/WiresRegulatingCondEq.py   |  4 +--
 .../IEC61970/Wires/WiresRegulatingControl.py  |  4 +--
 .../Equipment/ControlArea/ControlArea.py      |  8 ++---
 CIM14/ENTSOE/Equipment/Core/BaseVoltage.py    |  8 ++---
 .../Equipment/Core/ConductingEquipment.py     |  4 +--
 .../ENTSOE/Equipment/Core/ConnectivityNode.py |  4 +--
 CIM14/ENTSOE/Equipment/Core/Curve.py          |  4 +--
 CIM14/ENTSOE/Equipment/Core/Equipment.py      |  4 +--
 .../Equipment/Core/EquipmentContainer.py      |  4 +--
 .../Equipment/Core/GeographicalRegion.py      |  4 +--
 .../Equipment/Core/PowerSystemResource.py     |  4 +--
 .../Equipment/Core/SubGeographicalRegion.py   |  8 ++---
 CIM14/ENTSOE/Equipment/Core/Substation.py     |  4 +--
 CIM14/ENTSOE/Equipment/Core/Terminal.py       | 24 ++++++-------
 CIM14/ENTSOE/Equipment/Core/Unit.py           |  4 +--
 .../Equivalents/EquivalentNetwork.py          |  4 +--
 .../Generation/Production/GeneratingUnit.py   |  8 ++---
 .../Equipment/LoadModel/ConformLoadGroup.py   |  4 +--
 CIM14/ENTSOE/Equipment/LoadModel/DayType.py   |  4 +--
 .../LoadModel/LoadResponseCharacteristic.py   |  4 +--
 .../LoadModel/NonConformLoadGroup.py          |  4 +--
 CIM14/ENTSOE/Equipment/LoadModel/Season.py    |  4 +--
 .../ENTSOE/Equipment/LoadModel/SubLoadArea.py |  4 +--
 .../Equipment/Meas/MeasurementValueSource.py  |  4 +--
 .../OperationalLimits/OperationalLimitSet.py  |  4 +--
 .../OperationalLimits/OperationalLimitType.py |  4 +--
 .../Equipment/Wires/PowerTransformer.py       |  4 +--
 .../Wires/ReactiveCapabilityCurve.py          |  4 +--
 .../Equipment/Wires/RegulatingControl.py      |  8 ++---
 CIM14/ENTSOE/Topology/Core/BaseVoltage.py     |  4 +--
 .../Core/ConnectivityNodeContainer.py         |  4 +--
 .../Topology/Topology/TopologicalNode.py      |  4 +--
 CIM14/IEC61968/AssetModels/ConductorInfo.py   |  8 ++---
 CIM14/IEC61968/AssetModels/EndDeviceModel.py  |  4 +--
 CIM14/IEC61968/AssetModels/TransformerInfo.py |  8 ++---
 CIM14/IEC61968/AssetModels/WindingInfo.py     | 12 +++----
 CIM14/IEC61968/AssetModels/WireType.py        |  8 ++---
 CIM14/IEC61968/Assets/Asset.py                |  8 ++---
 CIM14/IEC61968/Assets/AssetContainer.py       |  8 ++---
 CIM14/IEC61968/Common/CoordinateSystem.py     |  4 +--
 CIM14/IEC61968/Common/Location.py             | 16 ++++-----
 CIM14/IEC61968/Common/TimeSchedule.py         |  4 +--
 CIM14/IEC61968/Customers/Customer.py          |  8 ++---
 CIM14/IEC61968/Customers/CustomerAccount.py   |  8 ++---
 CIM14/IEC61968/Customers/CustomerAgreement.py | 16 ++++-----
 CIM14/IEC61968/Customers/PricingStructure.py  |  4 +--
 CIM14/IEC61968/Customers/ServiceCategory.py   | 12 +++----
 CIM14/IEC61968/Customers/ServiceLocation.py   |  8 ++---
 .../Metering/DemandResponseProgram.py         | 12 +++----
 CIM14/IEC61968/Metering/DeviceFunction.py     |  8 ++---
 CIM14/IEC61968/Metering/EndDeviceAsset.py     | 12 +++----
 CIM14/IEC61968/Metering/EndDeviceGroup.py     |  4 +--
 CIM14/IEC61968/Metering/IntervalReading.py    |  4 +--
 CIM14/IEC61968/Metering/MeterAsset.py         | 16 ++++-----
 CIM14/IEC61968/Metering/MeterReading.py       |  8 ++---
 CIM14/IEC61968/Metering/Pending.py            |  4 +--
 CIM14/IEC61968/Metering/Reading.py            |  4 +--
 CIM14/IEC61968/Metering/ReadingType.py        |  8 ++---
 .../IEC61968/Metering/ServiceDeliveryPoint.py |  8 ++---
 .../PaymentMetering/AuxiliaryAccount.py       |  4 +--
 .../PaymentMetering/AuxiliaryAgreement.py     |  4 +--
 CIM14/IEC61968/PaymentMetering/Cashier.py     |  4 +--
 .../IEC61968/PaymentMetering/CashierShift.py  |  8 ++---
 CIM14/IEC61968/PaymentMetering/Charge.py      |  4 +--
 .../PaymentMetering/MerchantAccount.py        |  8 ++---
 .../PaymentMetering/MerchantAgreement.py      |  4 +--
 CIM14/IEC61968/PaymentMetering/PointOfSale.py |  4 +--
 CIM14/IEC61968/PaymentMetering/Receipt.py     |  8 ++---
 .../PaymentMetering/ServiceSupplier.py        |  8 ++---
 CIM14/IEC61968/PaymentMetering/Transaction.py |  4 +--
 CIM14/IEC61968/PaymentMetering/Vendor.py      | 12 +++----
 CIM14/IEC61968/PaymentMetering/VendorShift.py |  8 ++---
 .../WiresExt/DistributionTransformer.py       |  8 ++---
 .../WiresExt/PerLengthPhaseImpedance.py       |  8 ++---
 .../WiresExt/PerLengthSequenceImpedance.py    |  4 +--
 CIM14/IEC61968/WiresExt/TransformerBank.py    |  4 +--
 CIM14/IEC61968/WiresExt/WindingPiImpedance.py |  4 +--
 CIM14/IEC61970/Contingency/Contingency.py     |  4 +--
 CIM14/IEC61970/ControlArea/ControlArea.py     |  8 ++---
 .../ControlArea/ControlAreaGeneratingUnit.py  |  4 +--
 CIM14/IEC61970/ControlArea/TieFlow.py         |  4 +--
 CIM14/IEC61970/Core/BaseVoltage.py            | 12 +++----
 CIM14/IEC61970/Core/ConductingEquipment.py    |  8 ++---
 CIM14/IEC61970/Core/ConnectivityNode.py       |  4 +--
 .../Core/ConnectivityNodeContainer.py         |  8 ++---
 CIM14/IEC61970/Core/Curve.py                  |  4 +--
 CIM14/IEC61970/Core/Equipment.py              |  8 ++---
 CIM14/IEC61970/Core/EquipmentContainer.py     |  4 +--
 CIM14/IEC61970/Core/GeographicalRegion.py     |  4 +--
 .../Core/IrregularIntervalSchedule.py         |  4 +--
 CIM14/IEC61970/Core/OperatingParticipant.py   |  4 +--
 CIM14/IEC61970/Core/PSRType.py                |  4 +--
 CIM14/IEC61970/Core/PowerSystemResource.py    | 12 +++----
 .../IEC61970/Core/RegularIntervalSchedule.py  |  4 +--
 CIM14/IEC61970/Core/ReportingGroup.py         |  8 ++---
 CIM14/IEC61970/Core/ReportingSuperGroup.py    |  4 +--
 CIM14/IEC61970/Core/SubGeographicalRegion.py  |  8 ++---
 CIM14/IEC61970/Core/Substation.py             |  8 ++---
 CIM14/IEC61970/Core/Terminal.py               | 32 ++++++++---------
 CIM14/IEC61970/Core/Unit.py                   | 20 +++++------
 CIM14/IEC61970/Core/VoltageLevel.py           |  4 +--
 CIM14/IEC61970/Dynamics/Block.py              | 20 +++++------
 CIM14/IEC61970/Dynamics/BlockConnectivity.py  |  8 ++---
 CIM14/IEC61970/Dynamics/BlockInputType.py     |  8 ++---
 CIM14/IEC61970/Dynamics/BlockOutputType.py    |  8 ++---
 CIM14/IEC61970/Dynamics/BlockType.py          |  8 ++---
 .../Dynamics/BlockUsageOutputReference.py     |  4 +--
 CIM14/IEC61970/Dynamics/ConnectionFrame.py    |  8 ++---
 CIM14/IEC61970/Dynamics/MetaBlock.py          | 32 ++++++++---------
 CIM14/IEC61970/Dynamics/MetaBlockConOutput.py |  4 +--
 .../IEC61970/Dynamics/MetaBlockConnectable.py | 36 +++++++++----------
 .../IEC61970/Dynamics/MetaBlockConnection.py  | 12 +++----
 .../Dynamics/MetaBlockConnectivity.py         | 20 +++++------
 CIM14/IEC61970/Dynamics/MetaBlockInput.py     | 12 +++----
 CIM14/IEC61970/Dynamics/MetaBlockOutput.py    |  8 ++---
 .../Dynamics/MetaBlockOutputReference.py      |  4 +--
 CIM14/IEC61970/Dynamics/MetaBlockParameter.py |  4 +--
 CIM14/IEC61970/Dynamics/MetaBlockReference.py | 24 ++++++-------
 CIM14/IEC61970/Dynamics/Slot.py               | 12 +++----
 CIM14/IEC61970/Dynamics/SlotOutput.py         |  4 +--
 CIM14/IEC61970/Dynamics/SlotReference.py      |  4 +--
 CIM14/IEC61970/Dynamics/UserBlockParameter.py |  4 +--
 .../IEC61970/Equivalents/EquivalentNetwork.py |  4 +--
 .../GenerationDynamics/HeatRecoveryBoiler.py  |  4 +--
 .../Production/CogenerationPlant.py           |  4 +--
 .../Production/CombinedCyclePlant.py          |  4 +--
 .../Generation/Production/FossilFuel.py       |  4 +--
 .../Generation/Production/GeneratingUnit.py   | 16 ++++-----
 .../Production/HydroGeneratingUnit.py         |  8 ++---
 .../Generation/Production/HydroPowerPlant.py  |  8 ++---
 .../Generation/Production/Reservoir.py        | 20 +++++------
 .../Production/ThermalGeneratingUnit.py       | 16 ++++-----
 .../Informative/InfCore/ModelingAuthority.py  |  4 +--
 .../InfCore/ModelingAuthoritySet.py           |  4 +--
 CIM14/IEC61970/LoadModel/ConformLoadGroup.py  |  8 ++---
 CIM14/IEC61970/LoadModel/DayType.py           |  4 +--
 CIM14/IEC61970/LoadModel/LoadArea.py          |  4 +--
 .../LoadModel/LoadResponseCharacteristic.py   |  4 +--
 .../IEC61970/LoadModel/NonConformLoadGroup.py |  8 ++---
 CIM14/IEC61970/LoadModel/PowerCutZone.py      |  4 +--
 CIM14/IEC61970/LoadModel/Season.py            |  4 +--
 CIM14/IEC61970/LoadModel/SubLoadArea.py       |  4 +--
 CIM14/IEC61970/Meas/Accumulator.py            |  4 +--
 CIM14/IEC61970/Meas/AccumulatorLimitSet.py    |  4 +--
 CIM14/IEC61970/Meas/Analog.py                 |  4 +--
 CIM14/IEC61970/Meas/AnalogLimitSet.py         |  4 +--
 CIM14/IEC61970/Meas/AnalogValue.py            |  8 ++---
 CIM14/IEC61970/Meas/ControlType.py            |  4 +--
 CIM14/IEC61970/Meas/Discrete.py               |  4 +--
 CIM14/IEC61970/Meas/Measurement.py            |  4 +--
 CIM14/IEC61970/Meas/MeasurementValueSource.py |  4 +--
 CIM14/IEC61970/Meas/StringMeasurement.py      |  4 +--
 CIM14/IEC61970/Meas/ValueAliasSet.py          | 12 +++----
 .../IEC61970/OperationalLimits/BranchGroup.py |  4 +--
 .../OperationalLimits/OperationalLimitSet.py  |  4 +--
 .../OperationalLimits/OperationalLimitType.py |  4 +--
 CIM14/IEC61970/Outage/ClearanceTagType.py     |  4 +--
 CIM14/IEC61970/Outage/OutageSchedule.py       |  4 +--
 CIM14/IEC61970/SCADA/RemoteUnit.py            |  4 +--
 .../StateVariables/TopologicalIsland.py       |  4 +--
 CIM14/IEC61970/Topology/BusNameMarker.py      |  4 +--
 CIM14/IEC61970/Topology/TopologicalNode.py    |  8 ++---
 CIM14/IEC61970/Wires/CompositeSwitch.py       |  4 +--
 CIM14/IEC61970/Wires/EnergyConsumer.py        |  4 +--
 CIM14/IEC61970/Wires/PowerTransformer.py      |  4 +--
 CIM14/IEC61970/Wires/ProtectedSwitch.py       |  4 +--
 .../IEC61970/Wires/ReactiveCapabilityCurve.py |  4 +--
 CIM14/IEC61970/Wires/RegulatingCondEq.py      |  4 +--
 CIM14/IEC61970/Wires/RegulatingControl.py     | 12 +++----
 CIM14/IEC61970/Wires/RegulationSchedule.py    |  4 +--
 CIM14/IEC61970/Wires/Switch.py                |  4 +--
 CIM14/IEC61970/Wires/TapChanger.py            |  4 +--
 CIM14/IEC61970/Wires/TransformerWinding.py    |  8 ++---
 .../IEC61968/AssetModels/ConductorInfo.py     |  8 ++---
 .../AssetModels/PowerTransformerInfo.py       |  4 +--
 .../AssetModels/TransformerEndInfo.py         |  4 +--
 .../AssetModels/TransformerTankInfo.py        |  8 ++---
 .../Asset/IEC61968/AssetModels/WireType.py    |  4 +--
 .../Asset/IEC61970/Core/IdentifiedObject.py   |  4 +--
 CIM15/CDPSM/Asset/IEC61970/Core/NameType.py   |  4 +--
 .../IEC61970/Wires/PerLengthPhaseImpedance.py |  4 +--
 .../Wires/PerLengthSequenceImpedance.py       |  4 +--
 .../Wires/TransformerCoreAdmittance.py        |  4 +--
 .../Wires/TransformerStarImpedance.py         |  4 +--
 .../IEC61970/Core/IdentifiedObject.py         |  4 +--
 .../CDPSM/Balanced/IEC61970/Core/NameType.py  |  4 +--
 .../Generation/Production/GeneratingUnit.py   |  4 +--
 .../LoadModel/LoadResponseCharacteristic.py   |  4 +--
 .../Wires/TransformerCoreAdmittance.py        |  4 +--
 .../Balanced/IEC61970/Wires/TransformerEnd.py |  4 +--
 .../Wires/TransformerStarImpedance.py         |  4 +--
 .../Connectivity/IEC61970/Core/BaseVoltage.py |  8 ++---
 .../IEC61970/Core/ConductingEquipment.py      |  4 +--
 .../IEC61970/Core/ConnectivityNode.py         |  4 +--
 .../Core/ConnectivityNodeContainer.py         |  4 +--
 .../IEC61970/Core/EquipmentContainer.py       |  4 +--
 .../IEC61970/Core/GeographicalRegion.py       |  4 +--
 .../IEC61970/Core/IdentifiedObject.py         |  4 +--
 .../Connectivity/IEC61970/Core/NameType.py    |  4 +--
 .../IEC61970/Core/NameTypeAuthority.py        |  4 +--
 .../IEC61970/Core/SubGeographicalRegion.py    |  8 ++---
 .../Connectivity/IEC61970/Core/Substation.py  |  8 ++---
 .../Connectivity/IEC61970/Core/Terminal.py    |  4 +--
 .../IEC61970/Core/VoltageLevel.py             |  4 +--
 .../IEC61970/Wires/PowerTransformer.py        |  8 ++---
 .../IEC61970/Wires/TransformerTank.py         |  4 +--
 .../IEC61968/Common/CoordinateSystem.py       |  4 +--
 .../Geographical/IEC61968/Common/Location.py  |  8 ++---
 .../IEC61970/Core/IdentifiedObject.py         |  4 +--
 .../Geographical/IEC61970/Core/NameType.py    |  4 +--
 CIM15/IEC61968/AssetModels/ConductorInfo.py   |  8 ++---
 CIM15/IEC61968/AssetModels/EndDeviceInfo.py   |  4 +--
 .../AssetModels/PowerTransformerInfo.py       |  8 ++---
 CIM15/IEC61968/AssetModels/TapChangerInfo.py  |  4 +--
 .../AssetModels/TransformerEndInfo.py         | 24 ++++++-------
 .../AssetModels/TransformerTankInfo.py        | 16 ++++-----
 CIM15/IEC61968/AssetModels/WireType.py        |  8 ++---
 CIM15/IEC61968/Assets/Asset.py                | 28 +++++++--------
 CIM15/IEC61968/Assets/AssetContainer.py       |  8 ++---
 CIM15/IEC61968/Assets/AssetModel.py           |  4 +--
 CIM15/IEC61968/Assets/ProductAssetModel.py    |  4 +--
 CIM15/IEC61968/Common/CoordinateSystem.py     |  8 ++---
 CIM15/IEC61968/Common/Document.py             | 32 ++++++++---------
 CIM15/IEC61968/Common/Location.py             | 20 +++++------
 CIM15/IEC61968/Common/TimePoint.py            |  4 +--
 CIM15/IEC61968/Common/TimeSchedule.py         |  4 +--
 CIM15/IEC61968/Customers/Customer.py          | 16 ++++-----
 CIM15/IEC61968/Customers/CustomerAccount.py   | 20 +++++------
 CIM15/IEC61968/Customers/CustomerAgreement.py | 16 ++++-----
 CIM15/IEC61968/Customers/PricingStructure.py  |  4 +--
 CIM15/IEC61968/Customers/ServiceCategory.py   |  8 ++---
 CIM15/IEC61968/Customers/ServiceLocation.py   | 12 +++----
 .../Metering/DemandResponseProgram.py         | 12 +++----
 CIM15/IEC61968/Metering/EndDevice.py          |  8 ++---
 CIM15/IEC61968/Metering/EndDeviceFunction.py  |  8 ++---
 CIM15/IEC61968/Metering/EndDeviceGroup.py     |  4 +--
 CIM15/IEC61968/Metering/IntervalReading.py    |  4 +--
 CIM15/IEC61968/Metering/Meter.py              | 16 ++++-----
 CIM15/IEC61968/Metering/MeterReading.py       |  8 ++---
 CIM15/IEC61968/Metering/PendingCalculation.py |  4 +--
 CIM15/IEC61968/Metering/Reading.py            |  4 +--
 CIM15/IEC61968/Metering/ReadingType.py        |  8 ++---
 .../IEC61968/Metering/ServiceDeliveryPoint.py |  8 ++---
 .../PaymentMetering/AuxiliaryAccount.py       |  4 +--
 .../PaymentMetering/AuxiliaryAgreement.py     |  4 +--
 CIM15/IEC61968/PaymentMetering/Cashier.py     |  4 +--
 .../IEC61968/PaymentMetering/CashierShift.py  |  8 ++---
 CIM15/IEC61968/PaymentMetering/Charge.py      |  4 +--
 .../PaymentMetering/MerchantAccount.py        |  4 +--
 .../PaymentMetering/MerchantAgreement.py      |  4 +--
 CIM15/IEC61968/PaymentMetering/PointOfSale.py |  4 +--
 CIM15/IEC61968/PaymentMetering/Receipt.py     |  8 ++---
 .../PaymentMetering/ServiceSupplier.py        | 12 +++----
 CIM15/IEC61968/PaymentMetering/Transaction.py |  4 +--
 CIM15/IEC61968/PaymentMetering/Vendor.py      |  4 +--
 CIM15/IEC61968/PaymentMetering/VendorShift.py |  8 ++---
 CIM15/IEC61968/Work/Work.py                   | 12 +++----
 CIM15/IEC61970/Contingency/Contingency.py     |  4 +--
 CIM15/IEC61970/ControlArea/ControlArea.py     |  8 ++---
 .../ControlArea/ControlAreaGeneratingUnit.py  |  4 +--
 CIM15/IEC61970/ControlArea/TieFlow.py         |  4 +--
 CIM15/IEC61970/Core/BaseVoltage.py            | 16 ++++-----
 CIM15/IEC61970/Core/ConductingEquipment.py    | 12 +++----
 CIM15/IEC61970/Core/ConnectivityNode.py       |  4 +--
 .../Core/ConnectivityNodeContainer.py         |  8 ++---
 CIM15/IEC61970/Core/Curve.py                  |  4 +--
 CIM15/IEC61970/Core/Equipment.py              |  8 ++---
 CIM15/IEC61970/Core/EquipmentContainer.py     |  4 +--
 CIM15/IEC61970/Core/GeographicalRegion.py     |  4 +--
 CIM15/IEC61970/Core/IdentifiedObject.py       |  8 ++---
 .../Core/IrregularIntervalSchedule.py         |  4 +--
 CIM15/IEC61970/Core/NameType.py               |  4 +--
 CIM15/IEC61970/Core/NameTypeAuthority.py      |  4 +--
 CIM15/IEC61970/Core/OperatingParticipant.py   |  4 +--
 CIM15/IEC61970/Core/PSRType.py                |  4 +--
 CIM15/IEC61970/Core/PowerSystemResource.py    | 28 +++++++--------
 .../IEC61970/Core/RegularIntervalSchedule.py  |  4 +--
 CIM15/IEC61970/Core/ReportingGroup.py         |  8 ++---
 CIM15/IEC61970/Core/ReportingSuperGroup.py    |  4 +--
 CIM15/IEC61970/Core/SubGeographicalRegion.py  |  8 ++---
 CIM15/IEC61970/Core/Substation.py             |  8 ++---
 CIM15/IEC61970/Core/Terminal.py               | 36 +++++++++----------
 CIM15/IEC61970/Core/VoltageLevel.py           |  4 +--
 .../IEC61970/Equivalents/EquivalentNetwork.py |  4 +--
 .../GenerationDynamics/HeatRecoveryBoiler.py  |  4 +--
 .../Production/CogenerationPlant.py           |  4 +--
 .../Production/CombinedCyclePlant.py          |  4 +--
 .../Generation/Production/FossilFuel.py       |  4 +--
 .../Generation/Production/GeneratingUnit.py   | 16 ++++-----
 .../Production/HydroGeneratingUnit.py         |  8 ++---
 .../Generation/Production/HydroPowerPlant.py  |  8 ++---
 .../Generation/Production/Reservoir.py        | 20 +++++------
 .../Production/ThermalGeneratingUnit.py       | 16 ++++-----
 CIM15/IEC61970/Graphics/DiagramObject.py      |  4 +--
 .../Graphics/DiagramObjectGluePoint.py        |  4 +--
 CIM15/IEC61970/Graphics/DiagramObjectStyle.py |  4 +--
 .../InfAssetModels/AssetModelCatalogue.py     |  4 +--
 .../InfAssetModels/AssetModelCatalogueItem.py |  8 ++---
 .../InfAssetModels/TransformerAssetModel.py   |  4 +--
 .../IEC61970/Informative/InfAssets/Bushing.py |  4 +--
 .../Informative/InfAssets/ComEquipment.py     |  4 +--
 .../InfAssets/CurrentTransformerInfo.py       |  4 +--
 .../Informative/InfAssets/DimensionsInfo.py   |  8 ++---
 CIM15/IEC61970/Informative/InfAssets/Duct.py  |  4 +--
 .../Informative/InfAssets/DuctBank.py         |  4 +--
 .../InfAssets/FaultIndicatorInfo.py           |  4 +--
 .../InfAssets/GenericAssetModelOrMaterial.py  | 16 ++++-----
 .../Informative/InfAssets/MountingPoint.py    |  4 +--
 CIM15/IEC61970/Informative/InfAssets/Pole.py  |  4 +--
 .../InfAssets/PotentialTransformerInfo.py     |  4 +--
 .../Informative/InfAssets/Procedure.py        |  8 ++---
 .../InfAssets/ShuntImpedanceInfo.py           |  4 +--
 .../Informative/InfAssets/Specification.py    | 20 +++++------
 .../Informative/InfAssets/Structure.py        |  4 +--
 .../InfAssets/SurgeProtectorInfo.py           |  4 +--
 .../Informative/InfAssets/TransformerAsset.py |  4 +--
 .../InfAssets/TransformerObservation.py       |  8 ++---
 .../Informative/InfAssets/WorkEquipment.py    |  4 +--
 CIM15/IEC61970/Informative/InfCommon/Bank.py  |  4 +--
 .../InfCommon/ScheduleParameterInfo.py        |  4 +--
 .../Informative/InfCore/ModelingAuthority.py  |  4 +--
 .../InfCore/ModelingAuthoritySet.py           |  4 +--
 .../Informative/InfCustomers/OutageHistory.py |  4 +--
 .../InfCustomers/StandardIndustryCode.py      |  4 +--
 .../InfCustomers/WorkBillingInfo.py           |  4 +--
 .../Informative/InfERPSupport/ErpBOM.py       |  4 +--
 .../InfERPSupport/ErpCompetency.py            |  4 +--
 .../Informative/InfERPSupport/ErpInvoice.py   |  4 +--
 .../InfERPSupport/ErpInvoiceLineItem.py       |  8 ++---
 .../Informative/InfERPSupport/ErpJournal.py   |  4 +--
 .../Informative/InfERPSupport/ErpLedger.py    |  4 +--
 .../InfERPSupport/ErpLedgerBudget.py          |  4 +--
 .../InfERPSupport/ErpOrganisation.py          | 36 +++++++++----------
 .../Informative/InfERPSupport/ErpPayable.py   |  4 +--
 .../Informative/InfERPSupport/ErpPerson.py    | 28 +++++++--------
 .../Informative/InfERPSupport/ErpPersonnel.py |  4 +--
 .../InfERPSupport/ErpProjectAccounting.py     | 16 ++++-----
 .../InfERPSupport/ErpPurchaseOrder.py         |  4 +--
 .../Informative/InfERPSupport/ErpQuote.py     |  4 +--
 .../InfERPSupport/ErpReceivable.py            |  4 +--
 .../InfERPSupport/ErpReceiveDelivery.py       |  4 +--
 .../InfERPSupport/ErpRequisition.py           |  4 +--
 .../Informative/InfERPSupport/ErpTimeSheet.py |  4 +--
 .../Informative/InfGMLSupport/Diagram.py      |  4 +--
 .../InfGMLSupport/GmlBaseSymbol.py            |  4 +--
 .../Informative/InfGMLSupport/GmlColour.py    | 12 +++----
 .../InfGMLSupport/GmlDiagramObject.py         | 20 +++++------
 .../InfGMLSupport/GmlFeatureStyle.py          | 12 +++----
 .../Informative/InfGMLSupport/GmlFill.py      |  8 ++---
 .../Informative/InfGMLSupport/GmlFont.py      |  4 +--
 .../Informative/InfGMLSupport/GmlGraphic.py   |  4 +--
 .../Informative/InfGMLSupport/GmlHalo.py      |  4 +--
 .../InfGMLSupport/GmlLabelPlacement.py        |  4 +--
 .../InfGMLSupport/GmlLabelStyle.py            |  8 ++---
 .../InfGMLSupport/GmlObservation.py           |  8 ++---
 .../Informative/InfGMLSupport/GmlSelector.py  |  4 +--
 .../Informative/InfGMLSupport/GmlStroke.py    |  8 ++---
 .../InfLoadControl/LoadMgmtFunction.py        |  4 +--
 .../Informative/InfLocations/LandProperty.py  | 12 +++----
 .../Informative/InfLocations/Route.py         |  4 +--
 .../Informative/InfOperations/CallBack.py     |  4 +--
 .../Informative/InfOperations/ChangeSet.py    |  4 +--
 .../InfOperations/CircuitSection.py           |  4 +--
 .../InfOperations/IncidentRecord.py           |  4 +--
 .../InfOperations/NetworkDataSet.py           |  4 +--
 .../Informative/InfOperations/OutageRecord.py |  4 +--
 .../Informative/InfOperations/OutageStep.py   |  4 +--
 .../InfOperations/PlannedOutage.py            |  8 ++---
 .../InfOperations/SafetyDocument.py           |  8 ++---
 .../InfOperations/SwitchingSchedule.py        |  4 +--
 .../InfTypeAsset/TypeAssetCatalogue.py        |  4 +--
 .../Informative/InfWork/BusinessCase.py       |  8 ++---
 .../Informative/InfWork/CUAllowableAction.py  |  4 +--
 CIM15/IEC61970/Informative/InfWork/CUGroup.py |  4 +--
 .../Informative/InfWork/CULaborCode.py        |  4 +--
 .../IEC61970/Informative/InfWork/CostType.py  | 12 +++----
 CIM15/IEC61970/Informative/InfWork/Crew.py    | 16 ++++-----
 CIM15/IEC61970/Informative/InfWork/Design.py  | 12 +++----
 .../Informative/InfWork/DesignLocation.py     | 16 ++++-----
 .../Informative/InfWork/InspectionDataSet.py  |  4 +--
 .../Informative/InfWork/MaterialItem.py       | 12 +++----
 .../Informative/InfWork/OneCallRequest.py     |  4 +--
 .../Informative/InfWork/OverheadCost.py       |  8 ++---
 CIM15/IEC61970/Informative/InfWork/Project.py |  8 ++---
 .../Informative/InfWork/PropertyUnit.py       |  4 +--
 CIM15/IEC61970/Informative/InfWork/Request.py |  4 +--
 .../Informative/InfWork/TypeMaterial.py       | 16 ++++-----
 .../Informative/InfWork/WorkCostDetail.py     | 20 +++++------
 .../Informative/InfWork/WorkFlowStep.py       |  4 +--
 .../IEC61970/Informative/InfWork/WorkTask.py  | 36 +++++++++----------
 CIM15/IEC61970/LoadModel/ConformLoadGroup.py  |  8 ++---
 CIM15/IEC61970/LoadModel/DayType.py           |  4 +--
 CIM15/IEC61970/LoadModel/LoadArea.py          |  4 +--
 .../LoadModel/LoadResponseCharacteristic.py   |  4 +--
 .../IEC61970/LoadModel/NonConformLoadGroup.py |  8 ++---
 CIM15/IEC61970/LoadModel/PowerCutZone.py      |  4 +--
 CIM15/IEC61970/LoadModel/Season.py            |  4 +--
 CIM15/IEC61970/LoadModel/SubLoadArea.py       |  4 +--
 CIM15/IEC61970/Meas/Accumulator.py            |  4 +--
 CIM15/IEC61970/Meas/AccumulatorLimitSet.py    |  4 +--
 CIM15/IEC61970/Meas/Analog.py                 |  4 +--
 CIM15/IEC61970/Meas/AnalogLimitSet.py         |  4 +--
 CIM15/IEC61970/Meas/AnalogValue.py            |  8 ++---
 CIM15/IEC61970/Meas/ControlType.py            |  4 +--
 CIM15/IEC61970/Meas/Discrete.py               |  4 +--
 CIM15/IEC61970/Meas/MeasurementValue.py       |  4 +--
 CIM15/IEC61970/Meas/MeasurementValueSource.py |  4 +--
 CIM15/IEC61970/Meas/StringMeasurement.py      |  4 +--
 CIM15/IEC61970/Meas/ValueAliasSet.py          | 12 +++----
 .../OperationalLimits/ActivePowerLimitSet.py  |  4 +--
 .../ApparentPowerLimitSet.py                  |  4 +--
 .../IEC61970/OperationalLimits/BranchGroup.py |  4 +--
 .../OperationalLimits/CurrentLimitSet.py      |  4 +--
 .../OperationalLimits/OperationalLimitSet.py  |  4 +--
 .../OperationalLimits/OperationalLimitType.py |  4 +--
 .../OperationalLimits/VoltageLimitSet.py      |  4 +--
 CIM15/IEC61970/Outage/ClearanceTagType.py     |  4 +--
 CIM15/IEC61970/Outage/OutageSchedule.py       |  4 +--
 CIM15/IEC61970/SCADA/RemoteUnit.py            |  4 +--
 .../StateVariables/TopologicalIsland.py       |  4 +--
 CIM15/IEC61970/Topology/BusNameMarker.py      |  4 +--
 CIM15/IEC61970/Topology/TopologicalNode.py    |  8 ++---
 CIM15/IEC61970/Wires/ACLineSegment.py         | 16 ++++-----
 CIM15/IEC61970/Wires/CompositeSwitch.py       |  4 +--
 CIM15/IEC61970/Wires/EnergyConsumer.py        |  8 ++---
 CIM15/IEC61970/Wires/Ground.py                |  4 +--
 .../IEC61970/Wires/PerLengthPhaseImpedance.py |  8 ++---
 .../Wires/PerLengthSequenceImpedance.py       |  4 +--
 .../IEC61970/Wires/PhaseTapChangerTabular.py  |  8 ++---
 CIM15/IEC61970/Wires/PowerTransformer.py      |  8 ++---
 CIM15/IEC61970/Wires/ProtectedSwitch.py       |  4 +--
 .../IEC61970/Wires/RatioTapChangerTabular.py  |  8 ++---
 .../IEC61970/Wires/ReactiveCapabilityCurve.py |  4 +--
 CIM15/IEC61970/Wires/RegulatingCondEq.py      |  4 +--
 CIM15/IEC61970/Wires/RegulatingControl.py     |  8 ++---
 CIM15/IEC61970/Wires/RegulationSchedule.py    |  4 +--
 CIM15/IEC61970/Wires/ShuntCompensator.py      |  4 +--
 CIM15/IEC61970/Wires/Switch.py                |  8 ++---
 CIM15/IEC61970/Wires/TapChanger.py            |  4 +--
 CIM15/IEC61970/Wires/TapChangerControl.py     |  4 +--
 .../Wires/TransformerCoreAdmittance.py        |  4 +--
 CIM15/IEC61970/Wires/TransformerEnd.py        | 12 +++----
 .../Wires/TransformerStarImpedance.py         |  4 +--
 CIM15/IEC61970/Wires/TransformerTank.py       | 12 +++----
 567 files changed, 1924 insertions(+), 1924 deletions(-)

diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ConductorInfo.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ConductorInfo.py
index 257ef25..3af46d1 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ConductorInfo.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ConductorInfo.py
@@ -73,9 +73,9 @@ class ConductorInfo(IdentifiedObject):
     def setWireArrangements(self, value):
         for x in self._WireArrangements:
             x.ConductorInfo = None
+        self._WireArrangements = []
         for y in value:
-            y._ConductorInfo = self
-        self._WireArrangements = value
+            y.ConductorInfo = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
@@ -95,9 +95,9 @@ class ConductorInfo(IdentifiedObject):
     def setConductorSegments(self, value):
         for x in self._ConductorSegments:
             x.ConductorInfo = None
+        self._ConductorSegments = []
         for y in value:
-            y._ConductorInfo = self
-        self._ConductorSegments = value
+            y.ConductorInfo = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/TransformerInfo.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/TransformerInfo.py
index 9c77ad2..0a63a35 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/TransformerInfo.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/TransformerInfo.py
@@ -53,9 +53,9 @@ class TransformerInfo(IdentifiedObject):
     def setTransformers(self, value):
         for x in self._Transformers:
             x.TransformerInfo = None
+        self._Transformers = []
         for y in value:
-            y._TransformerInfo = self
-        self._Transformers = value
+            y.TransformerInfo = self
 
     Transformers = property(getTransformers, setTransformers)
 
@@ -75,9 +75,9 @@ class TransformerInfo(IdentifiedObject):
     def setWindingInfos(self, value):
         for x in self._WindingInfos:
             x.TransformerInfo = None
+        self._WindingInfos = []
         for y in value:
-            y._TransformerInfo = self
-        self._WindingInfos = value
+            y.TransformerInfo = self
 
     WindingInfos = property(getWindingInfos, setWindingInfos)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/WindingInfo.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/WindingInfo.py
index 3e80846..61f021b 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/WindingInfo.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/WindingInfo.py
@@ -97,9 +97,9 @@ class WindingInfo(IdentifiedObject):
     def setWindingTests(self, value):
         for x in self._WindingTests:
             x.FromWinding = None
+        self._WindingTests = []
         for y in value:
-            y._FromWinding = self
-        self._WindingTests = value
+            y.FromWinding = self
 
     WindingTests = property(getWindingTests, setWindingTests)
 
@@ -119,9 +119,9 @@ class WindingInfo(IdentifiedObject):
     def setToWindingSpecs(self, value):
         for x in self._ToWindingSpecs:
             x.ToWinding = None
+        self._ToWindingSpecs = []
         for y in value:
-            y._ToWinding = self
-        self._ToWindingSpecs = value
+            y.ToWinding = self
 
     ToWindingSpecs = property(getToWindingSpecs, setToWindingSpecs)
 
@@ -158,9 +158,9 @@ class WindingInfo(IdentifiedObject):
     def setWindings(self, value):
         for x in self._Windings:
             x.WindingInfo = None
+        self._Windings = []
         for y in value:
-            y._WindingInfo = self
-        self._Windings = value
+            y.WindingInfo = self
 
     Windings = property(getWindings, setWindings)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/WireType.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/WireType.py
index 330f340..7d0784d 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/WireType.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/WireType.py
@@ -101,9 +101,9 @@ class WireType(IdentifiedObject):
     def setConcentricNeutralCableInfos(self, value):
         for x in self._ConcentricNeutralCableInfos:
             x.WireType = None
+        self._ConcentricNeutralCableInfos = []
         for y in value:
-            y._WireType = self
-        self._ConcentricNeutralCableInfos = value
+            y.WireType = self
 
     ConcentricNeutralCableInfos = property(getConcentricNeutralCableInfos, setConcentricNeutralCableInfos)
 
@@ -123,9 +123,9 @@ class WireType(IdentifiedObject):
     def setWireArrangements(self, value):
         for x in self._WireArrangements:
             x.WireType = None
+        self._WireArrangements = []
         for y in value:
-            y._WireType = self
-        self._WireArrangements = value
+            y.WireType = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/Common/GeoLocation.py b/CIM14/CDPSM/Balanced/IEC61968/Common/GeoLocation.py
index 86ab513..b66c788 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/Common/GeoLocation.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/Common/GeoLocation.py
@@ -49,9 +49,9 @@ class GeoLocation(Location):
     def setPowerSystemResources(self, value):
         for x in self._PowerSystemResources:
             x.GeoLocation = None
+        self._PowerSystemResources = []
         for y in value:
-            y._GeoLocation = self
-        self._PowerSystemResources = value
+            y.GeoLocation = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/Common/Location.py b/CIM14/CDPSM/Balanced/IEC61968/Common/Location.py
index e973778..2552709 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/Common/Location.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/Common/Location.py
@@ -49,9 +49,9 @@ class Location(IdentifiedObject):
     def setPositionPoints(self, value):
         for x in self._PositionPoints:
             x.Location = None
+        self._PositionPoints = []
         for y in value:
-            y._Location = self
-        self._PositionPoints = value
+            y.Location = self
 
     PositionPoints = property(getPositionPoints, setPositionPoints)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/WiresExt/DistributionTransformer.py b/CIM14/CDPSM/Balanced/IEC61968/WiresExt/DistributionTransformer.py
index ca7f652..9235a61 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/WiresExt/DistributionTransformer.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/WiresExt/DistributionTransformer.py
@@ -74,9 +74,9 @@ class DistributionTransformer(Equipment):
     def setWindings(self, value):
         for x in self._Windings:
             x.Transformer = None
+        self._Windings = []
         for y in value:
-            y._Transformer = self
-        self._Windings = value
+            y.Transformer = self
 
     Windings = property(getWindings, setWindings)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/WiresExt/PerLengthPhaseImpedance.py b/CIM14/CDPSM/Balanced/IEC61968/WiresExt/PerLengthPhaseImpedance.py
index 70a18e3..f40dc90 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/WiresExt/PerLengthPhaseImpedance.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/WiresExt/PerLengthPhaseImpedance.py
@@ -57,9 +57,9 @@ class PerLengthPhaseImpedance(IdentifiedObject):
     def setPhaseImpedanceData(self, value):
         for x in self._PhaseImpedanceData:
             x.PhaseImpedance = None
+        self._PhaseImpedanceData = []
         for y in value:
-            y._PhaseImpedance = self
-        self._PhaseImpedanceData = value
+            y.PhaseImpedance = self
 
     PhaseImpedanceData = property(getPhaseImpedanceData, setPhaseImpedanceData)
 
@@ -79,9 +79,9 @@ class PerLengthPhaseImpedance(IdentifiedObject):
     def setConductorSegments(self, value):
         for x in self._ConductorSegments:
             x.PhaseImpedance = None
+        self._ConductorSegments = []
         for y in value:
-            y._PhaseImpedance = self
-        self._ConductorSegments = value
+            y.PhaseImpedance = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/WiresExt/PerLengthSequenceImpedance.py b/CIM14/CDPSM/Balanced/IEC61968/WiresExt/PerLengthSequenceImpedance.py
index 6b411f7..9df591d 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/WiresExt/PerLengthSequenceImpedance.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/WiresExt/PerLengthSequenceImpedance.py
@@ -81,9 +81,9 @@ class PerLengthSequenceImpedance(IdentifiedObject):
     def setConductorSegments(self, value):
         for x in self._ConductorSegments:
             x.SequenceImpedance = None
+        self._ConductorSegments = []
         for y in value:
-            y._SequenceImpedance = self
-        self._ConductorSegments = value
+            y.SequenceImpedance = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/WiresExt/TransformerBank.py b/CIM14/CDPSM/Balanced/IEC61968/WiresExt/TransformerBank.py
index 418831e..93ca7b5 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/WiresExt/TransformerBank.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/WiresExt/TransformerBank.py
@@ -53,9 +53,9 @@ class TransformerBank(Equipment):
     def setTransformers(self, value):
         for x in self._Transformers:
             x.TransformerBank = None
+        self._Transformers = []
         for y in value:
-            y._TransformerBank = self
-        self._Transformers = value
+            y.TransformerBank = self
 
     Transformers = property(getTransformers, setTransformers)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/WiresExt/WindingPiImpedance.py b/CIM14/CDPSM/Balanced/IEC61968/WiresExt/WindingPiImpedance.py
index d8db444..1b3db44 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/WiresExt/WindingPiImpedance.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/WiresExt/WindingPiImpedance.py
@@ -81,9 +81,9 @@ class WindingPiImpedance(IdentifiedObject):
     def setWindings(self, value):
         for x in self._Windings:
             x.PiImpedance = None
+        self._Windings = []
         for y in value:
-            y._PiImpedance = self
-        self._Windings = value
+            y.PiImpedance = self
 
     Windings = property(getWindings, setWindings)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Core/BaseVoltage.py b/CIM14/CDPSM/Balanced/IEC61970/Core/BaseVoltage.py
index e9eaaf8..42e3605 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Core/BaseVoltage.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Core/BaseVoltage.py
@@ -57,9 +57,9 @@ class BaseVoltage(IdentifiedObject):
     def setConductingEquipment(self, value):
         for x in self._ConductingEquipment:
             x.BaseVoltage = None
+        self._ConductingEquipment = []
         for y in value:
-            y._BaseVoltage = self
-        self._ConductingEquipment = value
+            y.BaseVoltage = self
 
     ConductingEquipment = property(getConductingEquipment, setConductingEquipment)
 
@@ -79,9 +79,9 @@ class BaseVoltage(IdentifiedObject):
     def setVoltageLevel(self, value):
         for x in self._VoltageLevel:
             x.BaseVoltage = None
+        self._VoltageLevel = []
         for y in value:
-            y._BaseVoltage = self
-        self._VoltageLevel = value
+            y.BaseVoltage = self
 
     VoltageLevel = property(getVoltageLevel, setVoltageLevel)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Core/ConductingEquipment.py b/CIM14/CDPSM/Balanced/IEC61970/Core/ConductingEquipment.py
index ae341ac..f4d1b57 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Core/ConductingEquipment.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Core/ConductingEquipment.py
@@ -57,9 +57,9 @@ class ConductingEquipment(Equipment):
     def setTerminals(self, value):
         for x in self._Terminals:
             x.ConductingEquipment = None
+        self._Terminals = []
         for y in value:
-            y._ConductingEquipment = self
-        self._Terminals = value
+            y.ConductingEquipment = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Core/ConnectivityNodeContainer.py b/CIM14/CDPSM/Balanced/IEC61970/Core/ConnectivityNodeContainer.py
index 3da5745..aae1f71 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Core/ConnectivityNodeContainer.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Core/ConnectivityNodeContainer.py
@@ -49,9 +49,9 @@ class ConnectivityNodeContainer(PowerSystemResource):
     def setConnectivityNodes(self, value):
         for x in self._ConnectivityNodes:
             x.ConnectivityNodeContainer = None
+        self._ConnectivityNodes = []
         for y in value:
-            y._ConnectivityNodeContainer = self
-        self._ConnectivityNodes = value
+            y.ConnectivityNodeContainer = self
 
     ConnectivityNodes = property(getConnectivityNodes, setConnectivityNodes)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Core/EquipmentContainer.py b/CIM14/CDPSM/Balanced/IEC61970/Core/EquipmentContainer.py
index c48e04f..89ccc19 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Core/EquipmentContainer.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Core/EquipmentContainer.py
@@ -49,9 +49,9 @@ class EquipmentContainer(ConnectivityNodeContainer):
     def setEquipments(self, value):
         for x in self._Equipments:
             x.EquipmentContainer = None
+        self._Equipments = []
         for y in value:
-            y._EquipmentContainer = self
-        self._Equipments = value
+            y.EquipmentContainer = self
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Core/GeographicalRegion.py b/CIM14/CDPSM/Balanced/IEC61970/Core/GeographicalRegion.py
index 0c5f533..4786c27 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Core/GeographicalRegion.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Core/GeographicalRegion.py
@@ -49,9 +49,9 @@ class GeographicalRegion(IdentifiedObject):
     def setRegions(self, value):
         for x in self._Regions:
             x.Region = None
+        self._Regions = []
         for y in value:
-            y._Region = self
-        self._Regions = value
+            y.Region = self
 
     Regions = property(getRegions, setRegions)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Core/PSRType.py b/CIM14/CDPSM/Balanced/IEC61970/Core/PSRType.py
index 4c3c94a..dd7d350 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Core/PSRType.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Core/PSRType.py
@@ -49,9 +49,9 @@ class PSRType(IdentifiedObject):
     def setPowerSystemResources(self, value):
         for x in self._PowerSystemResources:
             x.PSRType = None
+        self._PowerSystemResources = []
         for y in value:
-            y._PSRType = self
-        self._PowerSystemResources = value
+            y.PSRType = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Core/SubGeographicalRegion.py b/CIM14/CDPSM/Balanced/IEC61970/Core/SubGeographicalRegion.py
index 174b196..f72d4e4 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Core/SubGeographicalRegion.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Core/SubGeographicalRegion.py
@@ -74,9 +74,9 @@ class SubGeographicalRegion(IdentifiedObject):
     def setLines(self, value):
         for x in self._Lines:
             x.Region = None
+        self._Lines = []
         for y in value:
-            y._Region = self
-        self._Lines = value
+            y.Region = self
 
     Lines = property(getLines, setLines)
 
@@ -96,9 +96,9 @@ class SubGeographicalRegion(IdentifiedObject):
     def setSubstations(self, value):
         for x in self._Substations:
             x.Region = None
+        self._Substations = []
         for y in value:
-            y._Region = self
-        self._Substations = value
+            y.Region = self
 
     Substations = property(getSubstations, setSubstations)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Core/Substation.py b/CIM14/CDPSM/Balanced/IEC61970/Core/Substation.py
index 4be54c2..f81bf50 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Core/Substation.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Core/Substation.py
@@ -70,9 +70,9 @@ class Substation(EquipmentContainer):
     def setVoltageLevels(self, value):
         for x in self._VoltageLevels:
             x.Substation = None
+        self._VoltageLevels = []
         for y in value:
-            y._Substation = self
-        self._VoltageLevels = value
+            y.Substation = self
 
     VoltageLevels = property(getVoltageLevels, setVoltageLevels)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Core/VoltageLevel.py b/CIM14/CDPSM/Balanced/IEC61970/Core/VoltageLevel.py
index bcad80a..155608e 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Core/VoltageLevel.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Core/VoltageLevel.py
@@ -82,9 +82,9 @@ class VoltageLevel(EquipmentContainer):
     def setBays(self, value):
         for x in self._Bays:
             x.VoltageLevel = None
+        self._Bays = []
         for y in value:
-            y._VoltageLevel = self
-        self._Bays = value
+            y.VoltageLevel = self
 
     Bays = property(getBays, setBays)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Generation/Production/GeneratingUnit.py b/CIM14/CDPSM/Balanced/IEC61970/Generation/Production/GeneratingUnit.py
index b31e60a..26516a0 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Generation/Production/GeneratingUnit.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Generation/Production/GeneratingUnit.py
@@ -61,9 +61,9 @@ class GeneratingUnit(Equipment):
     def setSynchronousMachines(self, value):
         for x in self._SynchronousMachines:
             x.GeneratingUnit = None
+        self._SynchronousMachines = []
         for y in value:
-            y._GeneratingUnit = self
-        self._SynchronousMachines = value
+            y.GeneratingUnit = self
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/LoadModel/LoadResponseCharacteristic.py b/CIM14/CDPSM/Balanced/IEC61970/LoadModel/LoadResponseCharacteristic.py
index 2589c27..2436a9c 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/LoadModel/LoadResponseCharacteristic.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/LoadModel/LoadResponseCharacteristic.py
@@ -93,9 +93,9 @@ class LoadResponseCharacteristic(IdentifiedObject):
     def setEnergyConsumer(self, value):
         for x in self._EnergyConsumer:
             x.LoadResponse = None
+        self._EnergyConsumer = []
         for y in value:
-            y._LoadResponse = self
-        self._EnergyConsumer = value
+            y.LoadResponse = self
 
     EnergyConsumer = property(getEnergyConsumer, setEnergyConsumer)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Topology/ConnectivityNode.py b/CIM14/CDPSM/Balanced/IEC61970/Topology/ConnectivityNode.py
index 667afb1..6a7d1b5 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Topology/ConnectivityNode.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Topology/ConnectivityNode.py
@@ -53,9 +53,9 @@ class ConnectivityNode(IdentifiedObject):
     def setTerminals(self, value):
         for x in self._Terminals:
             x.ConnectivityNode = None
+        self._Terminals = []
         for y in value:
-            y._ConnectivityNode = self
-        self._Terminals = value
+            y.ConnectivityNode = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ConductorInfo.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ConductorInfo.py
index 23b651f..2ed454a 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ConductorInfo.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ConductorInfo.py
@@ -73,9 +73,9 @@ class ConductorInfo(IdentifiedObject):
     def setWireArrangements(self, value):
         for x in self._WireArrangements:
             x.ConductorInfo = None
+        self._WireArrangements = []
         for y in value:
-            y._ConductorInfo = self
-        self._WireArrangements = value
+            y.ConductorInfo = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
@@ -95,9 +95,9 @@ class ConductorInfo(IdentifiedObject):
     def setConductorSegments(self, value):
         for x in self._ConductorSegments:
             x.ConductorInfo = None
+        self._ConductorSegments = []
         for y in value:
-            y._ConductorInfo = self
-        self._ConductorSegments = value
+            y.ConductorInfo = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/TransformerInfo.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/TransformerInfo.py
index fabbe7e..0af3797 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/TransformerInfo.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/TransformerInfo.py
@@ -49,9 +49,9 @@ class TransformerInfo(IdentifiedObject):
     def setTransformers(self, value):
         for x in self._Transformers:
             x.TransformerInfo = None
+        self._Transformers = []
         for y in value:
-            y._TransformerInfo = self
-        self._Transformers = value
+            y.TransformerInfo = self
 
     Transformers = property(getTransformers, setTransformers)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/WindingInfo.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/WindingInfo.py
index 5e780ba..d575cd3 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/WindingInfo.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/WindingInfo.py
@@ -69,9 +69,9 @@ class WindingInfo(IdentifiedObject):
     def setWindingTests(self, value):
         for x in self._WindingTests:
             x.FromWinding = None
+        self._WindingTests = []
         for y in value:
-            y._FromWinding = self
-        self._WindingTests = value
+            y.FromWinding = self
 
     WindingTests = property(getWindingTests, setWindingTests)
 
@@ -91,9 +91,9 @@ class WindingInfo(IdentifiedObject):
     def setToWindingSpecs(self, value):
         for x in self._ToWindingSpecs:
             x.ToWinding = None
+        self._ToWindingSpecs = []
         for y in value:
-            y._ToWinding = self
-        self._ToWindingSpecs = value
+            y.ToWinding = self
 
     ToWindingSpecs = property(getToWindingSpecs, setToWindingSpecs)
 
@@ -113,9 +113,9 @@ class WindingInfo(IdentifiedObject):
     def setWindings(self, value):
         for x in self._Windings:
             x.WindingInfo = None
+        self._Windings = []
         for y in value:
-            y._WindingInfo = self
-        self._Windings = value
+            y.WindingInfo = self
 
     Windings = property(getWindings, setWindings)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/WireType.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/WireType.py
index b354113..cae3ac2 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/WireType.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/WireType.py
@@ -101,9 +101,9 @@ class WireType(IdentifiedObject):
     def setConcentricNeutralCableInfos(self, value):
         for x in self._ConcentricNeutralCableInfos:
             x.WireType = None
+        self._ConcentricNeutralCableInfos = []
         for y in value:
-            y._WireType = self
-        self._ConcentricNeutralCableInfos = value
+            y.WireType = self
 
     ConcentricNeutralCableInfos = property(getConcentricNeutralCableInfos, setConcentricNeutralCableInfos)
 
@@ -123,9 +123,9 @@ class WireType(IdentifiedObject):
     def setWireArrangements(self, value):
         for x in self._WireArrangements:
             x.WireType = None
+        self._WireArrangements = []
         for y in value:
-            y._WireType = self
-        self._WireArrangements = value
+            y.WireType = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/Common/GeoLocation.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/Common/GeoLocation.py
index e4fdaa8..9345dac 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/Common/GeoLocation.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/Common/GeoLocation.py
@@ -49,9 +49,9 @@ class GeoLocation(Location):
     def setPowerSystemResources(self, value):
         for x in self._PowerSystemResources:
             x.GeoLocation = None
+        self._PowerSystemResources = []
         for y in value:
-            y._GeoLocation = self
-        self._PowerSystemResources = value
+            y.GeoLocation = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/Common/Location.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/Common/Location.py
index dd52ce6..3d1d152 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/Common/Location.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/Common/Location.py
@@ -49,9 +49,9 @@ class Location(IdentifiedObject):
     def setPositionPoints(self, value):
         for x in self._PositionPoints:
             x.Location = None
+        self._PositionPoints = []
         for y in value:
-            y._Location = self
-        self._PositionPoints = value
+            y.Location = self
 
     PositionPoints = property(getPositionPoints, setPositionPoints)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/DistributionTransformer.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/DistributionTransformer.py
index ff4d563..5981d5c 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/DistributionTransformer.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/DistributionTransformer.py
@@ -74,9 +74,9 @@ class DistributionTransformer(Equipment):
     def setWindings(self, value):
         for x in self._Windings:
             x.Transformer = None
+        self._Windings = []
         for y in value:
-            y._Transformer = self
-        self._Windings = value
+            y.Transformer = self
 
     Windings = property(getWindings, setWindings)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/PerLengthPhaseImpedance.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/PerLengthPhaseImpedance.py
index bc9ba41..061a235 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/PerLengthPhaseImpedance.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/PerLengthPhaseImpedance.py
@@ -57,9 +57,9 @@ class PerLengthPhaseImpedance(IdentifiedObject):
     def setPhaseImpedanceData(self, value):
         for x in self._PhaseImpedanceData:
             x.PhaseImpedance = None
+        self._PhaseImpedanceData = []
         for y in value:
-            y._PhaseImpedance = self
-        self._PhaseImpedanceData = value
+            y.PhaseImpedance = self
 
     PhaseImpedanceData = property(getPhaseImpedanceData, setPhaseImpedanceData)
 
@@ -79,9 +79,9 @@ class PerLengthPhaseImpedance(IdentifiedObject):
     def setConductorSegments(self, value):
         for x in self._ConductorSegments:
             x.PhaseImpedance = None
+        self._ConductorSegments = []
         for y in value:
-            y._PhaseImpedance = self
-        self._ConductorSegments = value
+            y.PhaseImpedance = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/PerLengthSequenceImpedance.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/PerLengthSequenceImpedance.py
index 9ab8870..7a7afa7 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/PerLengthSequenceImpedance.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/PerLengthSequenceImpedance.py
@@ -73,9 +73,9 @@ class PerLengthSequenceImpedance(IdentifiedObject):
     def setConductorSegments(self, value):
         for x in self._ConductorSegments:
             x.SequenceImpedance = None
+        self._ConductorSegments = []
         for y in value:
-            y._SequenceImpedance = self
-        self._ConductorSegments = value
+            y.SequenceImpedance = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/TransformerBank.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/TransformerBank.py
index 6ec51b9..563bf3f 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/TransformerBank.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/TransformerBank.py
@@ -49,9 +49,9 @@ class TransformerBank(Equipment):
     def setTransformers(self, value):
         for x in self._Transformers:
             x.TransformerBank = None
+        self._Transformers = []
         for y in value:
-            y._TransformerBank = self
-        self._Transformers = value
+            y.TransformerBank = self
 
     Transformers = property(getTransformers, setTransformers)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/BaseVoltage.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/BaseVoltage.py
index b244e1e..caf1352 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/BaseVoltage.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/BaseVoltage.py
@@ -57,9 +57,9 @@ class BaseVoltage(IdentifiedObject):
     def setConductingEquipment(self, value):
         for x in self._ConductingEquipment:
             x.BaseVoltage = None
+        self._ConductingEquipment = []
         for y in value:
-            y._BaseVoltage = self
-        self._ConductingEquipment = value
+            y.BaseVoltage = self
 
     ConductingEquipment = property(getConductingEquipment, setConductingEquipment)
 
@@ -79,9 +79,9 @@ class BaseVoltage(IdentifiedObject):
     def setVoltageLevel(self, value):
         for x in self._VoltageLevel:
             x.BaseVoltage = None
+        self._VoltageLevel = []
         for y in value:
-            y._BaseVoltage = self
-        self._VoltageLevel = value
+            y.BaseVoltage = self
 
     VoltageLevel = property(getVoltageLevel, setVoltageLevel)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/ConductingEquipment.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/ConductingEquipment.py
index 9c8bb60..0018348 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/ConductingEquipment.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/ConductingEquipment.py
@@ -57,9 +57,9 @@ class ConductingEquipment(Equipment):
     def setTerminals(self, value):
         for x in self._Terminals:
             x.ConductingEquipment = None
+        self._Terminals = []
         for y in value:
-            y._ConductingEquipment = self
-        self._Terminals = value
+            y.ConductingEquipment = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/ConnectivityNodeContainer.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/ConnectivityNodeContainer.py
index daa9f82..708aa95 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/ConnectivityNodeContainer.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/ConnectivityNodeContainer.py
@@ -49,9 +49,9 @@ class ConnectivityNodeContainer(PowerSystemResource):
     def setConnectivityNodes(self, value):
         for x in self._ConnectivityNodes:
             x.ConnectivityNodeContainer = None
+        self._ConnectivityNodes = []
         for y in value:
-            y._ConnectivityNodeContainer = self
-        self._ConnectivityNodes = value
+            y.ConnectivityNodeContainer = self
 
     ConnectivityNodes = property(getConnectivityNodes, setConnectivityNodes)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/EquipmentContainer.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/EquipmentContainer.py
index f922b0a..53a06c4 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/EquipmentContainer.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/EquipmentContainer.py
@@ -49,9 +49,9 @@ class EquipmentContainer(ConnectivityNodeContainer):
     def setEquipments(self, value):
         for x in self._Equipments:
             x.EquipmentContainer = None
+        self._Equipments = []
         for y in value:
-            y._EquipmentContainer = self
-        self._Equipments = value
+            y.EquipmentContainer = self
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/GeographicalRegion.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/GeographicalRegion.py
index def6407..a531c25 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/GeographicalRegion.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/GeographicalRegion.py
@@ -49,9 +49,9 @@ class GeographicalRegion(IdentifiedObject):
     def setRegions(self, value):
         for x in self._Regions:
             x.Region = None
+        self._Regions = []
         for y in value:
-            y._Region = self
-        self._Regions = value
+            y.Region = self
 
     Regions = property(getRegions, setRegions)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/PSRType.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/PSRType.py
index 605f513..fefc3d5 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/PSRType.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/PSRType.py
@@ -49,9 +49,9 @@ class PSRType(IdentifiedObject):
     def setPowerSystemResources(self, value):
         for x in self._PowerSystemResources:
             x.PSRType = None
+        self._PowerSystemResources = []
         for y in value:
-            y._PSRType = self
-        self._PowerSystemResources = value
+            y.PSRType = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/SubGeographicalRegion.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/SubGeographicalRegion.py
index 0030c24..275fb88 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/SubGeographicalRegion.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/SubGeographicalRegion.py
@@ -74,9 +74,9 @@ class SubGeographicalRegion(IdentifiedObject):
     def setLines(self, value):
         for x in self._Lines:
             x.Region = None
+        self._Lines = []
         for y in value:
-            y._Region = self
-        self._Lines = value
+            y.Region = self
 
     Lines = property(getLines, setLines)
 
@@ -96,9 +96,9 @@ class SubGeographicalRegion(IdentifiedObject):
     def setSubstations(self, value):
         for x in self._Substations:
             x.Region = None
+        self._Substations = []
         for y in value:
-            y._Region = self
-        self._Substations = value
+            y.Region = self
 
     Substations = property(getSubstations, setSubstations)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/Substation.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/Substation.py
index a698915..1ae0164 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/Substation.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/Substation.py
@@ -70,9 +70,9 @@ class Substation(EquipmentContainer):
     def setVoltageLevels(self, value):
         for x in self._VoltageLevels:
             x.Substation = None
+        self._VoltageLevels = []
         for y in value:
-            y._Substation = self
-        self._VoltageLevels = value
+            y.Substation = self
 
     VoltageLevels = property(getVoltageLevels, setVoltageLevels)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/VoltageLevel.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/VoltageLevel.py
index 3854ac3..ac3c480 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/VoltageLevel.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/VoltageLevel.py
@@ -82,9 +82,9 @@ class VoltageLevel(EquipmentContainer):
     def setBays(self, value):
         for x in self._Bays:
             x.VoltageLevel = None
+        self._Bays = []
         for y in value:
-            y._VoltageLevel = self
-        self._Bays = value
+            y.VoltageLevel = self
 
     Bays = property(getBays, setBays)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Generation/Production/GeneratingUnit.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Generation/Production/GeneratingUnit.py
index 1647a13..e7d9b62 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Generation/Production/GeneratingUnit.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Generation/Production/GeneratingUnit.py
@@ -61,9 +61,9 @@ class GeneratingUnit(Equipment):
     def setSynchronousMachines(self, value):
         for x in self._SynchronousMachines:
             x.GeneratingUnit = None
+        self._SynchronousMachines = []
         for y in value:
-            y._GeneratingUnit = self
-        self._SynchronousMachines = value
+            y.GeneratingUnit = self
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Topology/ConnectivityNode.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Topology/ConnectivityNode.py
index 6e25ecd..81c6fe5 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Topology/ConnectivityNode.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Topology/ConnectivityNode.py
@@ -53,9 +53,9 @@ class ConnectivityNode(IdentifiedObject):
     def setTerminals(self, value):
         for x in self._Terminals:
             x.ConnectivityNode = None
+        self._Terminals = []
         for y in value:
-            y._ConnectivityNode = self
-        self._Terminals = value
+            y.ConnectivityNode = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ConductorInfo.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ConductorInfo.py
index d066fa7..1205ad7 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ConductorInfo.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ConductorInfo.py
@@ -73,9 +73,9 @@ class ConductorInfo(IdentifiedObject):
     def setWireArrangements(self, value):
         for x in self._WireArrangements:
             x.ConductorInfo = None
+        self._WireArrangements = []
         for y in value:
-            y._ConductorInfo = self
-        self._WireArrangements = value
+            y.ConductorInfo = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
@@ -95,9 +95,9 @@ class ConductorInfo(IdentifiedObject):
     def setConductorSegments(self, value):
         for x in self._ConductorSegments:
             x.ConductorInfo = None
+        self._ConductorSegments = []
         for y in value:
-            y._ConductorInfo = self
-        self._ConductorSegments = value
+            y.ConductorInfo = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/TransformerInfo.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/TransformerInfo.py
index 5872c98..ac78dfa 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/TransformerInfo.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/TransformerInfo.py
@@ -53,9 +53,9 @@ class TransformerInfo(IdentifiedObject):
     def setTransformers(self, value):
         for x in self._Transformers:
             x.TransformerInfo = None
+        self._Transformers = []
         for y in value:
-            y._TransformerInfo = self
-        self._Transformers = value
+            y.TransformerInfo = self
 
     Transformers = property(getTransformers, setTransformers)
 
@@ -75,9 +75,9 @@ class TransformerInfo(IdentifiedObject):
     def setWindingInfos(self, value):
         for x in self._WindingInfos:
             x.TransformerInfo = None
+        self._WindingInfos = []
         for y in value:
-            y._TransformerInfo = self
-        self._WindingInfos = value
+            y.TransformerInfo = self
 
     WindingInfos = property(getWindingInfos, setWindingInfos)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/WindingInfo.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/WindingInfo.py
index e4e713c..4dd8d8e 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/WindingInfo.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/WindingInfo.py
@@ -97,9 +97,9 @@ class WindingInfo(IdentifiedObject):
     def setWindingTests(self, value):
         for x in self._WindingTests:
             x.FromWinding = None
+        self._WindingTests = []
         for y in value:
-            y._FromWinding = self
-        self._WindingTests = value
+            y.FromWinding = self
 
     WindingTests = property(getWindingTests, setWindingTests)
 
@@ -119,9 +119,9 @@ class WindingInfo(IdentifiedObject):
     def setToWindingSpecs(self, value):
         for x in self._ToWindingSpecs:
             x.ToWinding = None
+        self._ToWindingSpecs = []
         for y in value:
-            y._ToWinding = self
-        self._ToWindingSpecs = value
+            y.ToWinding = self
 
     ToWindingSpecs = property(getToWindingSpecs, setToWindingSpecs)
 
@@ -158,9 +158,9 @@ class WindingInfo(IdentifiedObject):
     def setWindings(self, value):
         for x in self._Windings:
             x.WindingInfo = None
+        self._Windings = []
         for y in value:
-            y._WindingInfo = self
-        self._Windings = value
+            y.WindingInfo = self
 
     Windings = property(getWindings, setWindings)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/WireType.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/WireType.py
index 8b353db..9f25a80 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/WireType.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/WireType.py
@@ -101,9 +101,9 @@ class WireType(IdentifiedObject):
     def setConcentricNeutralCableInfos(self, value):
         for x in self._ConcentricNeutralCableInfos:
             x.WireType = None
+        self._ConcentricNeutralCableInfos = []
         for y in value:
-            y._WireType = self
-        self._ConcentricNeutralCableInfos = value
+            y.WireType = self
 
     ConcentricNeutralCableInfos = property(getConcentricNeutralCableInfos, setConcentricNeutralCableInfos)
 
@@ -123,9 +123,9 @@ class WireType(IdentifiedObject):
     def setWireArrangements(self, value):
         for x in self._WireArrangements:
             x.WireType = None
+        self._WireArrangements = []
         for y in value:
-            y._WireType = self
-        self._WireArrangements = value
+            y.WireType = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/Common/GeoLocation.py b/CIM14/CDPSM/Unbalanced/IEC61968/Common/GeoLocation.py
index b0a1ad7..1413a88 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/Common/GeoLocation.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/Common/GeoLocation.py
@@ -49,9 +49,9 @@ class GeoLocation(Location):
     def setPowerSystemResources(self, value):
         for x in self._PowerSystemResources:
             x.GeoLocation = None
+        self._PowerSystemResources = []
         for y in value:
-            y._GeoLocation = self
-        self._PowerSystemResources = value
+            y.GeoLocation = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/Common/Location.py b/CIM14/CDPSM/Unbalanced/IEC61968/Common/Location.py
index 3f4ab02..ab8e92d 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/Common/Location.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/Common/Location.py
@@ -49,9 +49,9 @@ class Location(IdentifiedObject):
     def setPositionPoints(self, value):
         for x in self._PositionPoints:
             x.Location = None
+        self._PositionPoints = []
         for y in value:
-            y._Location = self
-        self._PositionPoints = value
+            y.Location = self
 
     PositionPoints = property(getPositionPoints, setPositionPoints)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/DistributionTransformer.py b/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/DistributionTransformer.py
index 7044de1..295d8e1 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/DistributionTransformer.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/DistributionTransformer.py
@@ -74,9 +74,9 @@ class DistributionTransformer(Equipment):
     def setWindings(self, value):
         for x in self._Windings:
             x.Transformer = None
+        self._Windings = []
         for y in value:
-            y._Transformer = self
-        self._Windings = value
+            y.Transformer = self
 
     Windings = property(getWindings, setWindings)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/PerLengthPhaseImpedance.py b/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/PerLengthPhaseImpedance.py
index 441da9b..a8c87d2 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/PerLengthPhaseImpedance.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/PerLengthPhaseImpedance.py
@@ -57,9 +57,9 @@ class PerLengthPhaseImpedance(IdentifiedObject):
     def setPhaseImpedanceData(self, value):
         for x in self._PhaseImpedanceData:
             x.PhaseImpedance = None
+        self._PhaseImpedanceData = []
         for y in value:
-            y._PhaseImpedance = self
-        self._PhaseImpedanceData = value
+            y.PhaseImpedance = self
 
     PhaseImpedanceData = property(getPhaseImpedanceData, setPhaseImpedanceData)
 
@@ -79,9 +79,9 @@ class PerLengthPhaseImpedance(IdentifiedObject):
     def setConductorSegments(self, value):
         for x in self._ConductorSegments:
             x.PhaseImpedance = None
+        self._ConductorSegments = []
         for y in value:
-            y._PhaseImpedance = self
-        self._ConductorSegments = value
+            y.PhaseImpedance = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/PerLengthSequenceImpedance.py b/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/PerLengthSequenceImpedance.py
index 9e0f685..5c9ab5a 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/PerLengthSequenceImpedance.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/PerLengthSequenceImpedance.py
@@ -73,9 +73,9 @@ class PerLengthSequenceImpedance(IdentifiedObject):
     def setConductorSegments(self, value):
         for x in self._ConductorSegments:
             x.SequenceImpedance = None
+        self._ConductorSegments = []
         for y in value:
-            y._SequenceImpedance = self
-        self._ConductorSegments = value
+            y.SequenceImpedance = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/TransformerBank.py b/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/TransformerBank.py
index 3af4e95..d3a8d91 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/TransformerBank.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/TransformerBank.py
@@ -53,9 +53,9 @@ class TransformerBank(Equipment):
     def setTransformers(self, value):
         for x in self._Transformers:
             x.TransformerBank = None
+        self._Transformers = []
         for y in value:
-            y._TransformerBank = self
-        self._Transformers = value
+            y.TransformerBank = self
 
     Transformers = property(getTransformers, setTransformers)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/WindingPiImpedance.py b/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/WindingPiImpedance.py
index e762890..d9419ff 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/WindingPiImpedance.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/WindingPiImpedance.py
@@ -81,9 +81,9 @@ class WindingPiImpedance(IdentifiedObject):
     def setWindings(self, value):
         for x in self._Windings:
             x.PiImpedance = None
+        self._Windings = []
         for y in value:
-            y._PiImpedance = self
-        self._Windings = value
+            y.PiImpedance = self
 
     Windings = property(getWindings, setWindings)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Core/BaseVoltage.py b/CIM14/CDPSM/Unbalanced/IEC61970/Core/BaseVoltage.py
index 22912fa..1dc2637 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Core/BaseVoltage.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Core/BaseVoltage.py
@@ -57,9 +57,9 @@ class BaseVoltage(IdentifiedObject):
     def setConductingEquipment(self, value):
         for x in self._ConductingEquipment:
             x.BaseVoltage = None
+        self._ConductingEquipment = []
         for y in value:
-            y._BaseVoltage = self
-        self._ConductingEquipment = value
+            y.BaseVoltage = self
 
     ConductingEquipment = property(getConductingEquipment, setConductingEquipment)
 
@@ -79,9 +79,9 @@ class BaseVoltage(IdentifiedObject):
     def setVoltageLevel(self, value):
         for x in self._VoltageLevel:
             x.BaseVoltage = None
+        self._VoltageLevel = []
         for y in value:
-            y._BaseVoltage = self
-        self._VoltageLevel = value
+            y.BaseVoltage = self
 
     VoltageLevel = property(getVoltageLevel, setVoltageLevel)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Core/ConductingEquipment.py b/CIM14/CDPSM/Unbalanced/IEC61970/Core/ConductingEquipment.py
index 5afb5de..4e60b22 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Core/ConductingEquipment.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Core/ConductingEquipment.py
@@ -57,9 +57,9 @@ class ConductingEquipment(Equipment):
     def setTerminals(self, value):
         for x in self._Terminals:
             x.ConductingEquipment = None
+        self._Terminals = []
         for y in value:
-            y._ConductingEquipment = self
-        self._Terminals = value
+            y.ConductingEquipment = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Core/ConnectivityNodeContainer.py b/CIM14/CDPSM/Unbalanced/IEC61970/Core/ConnectivityNodeContainer.py
index cb5e940..58b0b7c 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Core/ConnectivityNodeContainer.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Core/ConnectivityNodeContainer.py
@@ -49,9 +49,9 @@ class ConnectivityNodeContainer(PowerSystemResource):
     def setConnectivityNodes(self, value):
         for x in self._ConnectivityNodes:
             x.ConnectivityNodeContainer = None
+        self._ConnectivityNodes = []
         for y in value:
-            y._ConnectivityNodeContainer = self
-        self._ConnectivityNodes = value
+            y.ConnectivityNodeContainer = self
 
     ConnectivityNodes = property(getConnectivityNodes, setConnectivityNodes)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Core/EquipmentContainer.py b/CIM14/CDPSM/Unbalanced/IEC61970/Core/EquipmentContainer.py
index c04925b..7dcdbbb 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Core/EquipmentContainer.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Core/EquipmentContainer.py
@@ -49,9 +49,9 @@ class EquipmentContainer(ConnectivityNodeContainer):
     def setEquipments(self, value):
         for x in self._Equipments:
             x.EquipmentContainer = None
+        self._Equipments = []
         for y in value:
-            y._EquipmentContainer = self
-        self._Equipments = value
+            y.EquipmentContainer = self
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Core/GeographicalRegion.py b/CIM14/CDPSM/Unbalanced/IEC61970/Core/GeographicalRegion.py
index ce65a74..671535e 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Core/GeographicalRegion.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Core/GeographicalRegion.py
@@ -49,9 +49,9 @@ class GeographicalRegion(IdentifiedObject):
     def setRegions(self, value):
         for x in self._Regions:
             x.Region = None
+        self._Regions = []
         for y in value:
-            y._Region = self
-        self._Regions = value
+            y.Region = self
 
     Regions = property(getRegions, setRegions)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Core/PSRType.py b/CIM14/CDPSM/Unbalanced/IEC61970/Core/PSRType.py
index 3616dd9..54a2b76 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Core/PSRType.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Core/PSRType.py
@@ -49,9 +49,9 @@ class PSRType(IdentifiedObject):
     def setPowerSystemResources(self, value):
         for x in self._PowerSystemResources:
             x.PSRType = None
+        self._PowerSystemResources = []
         for y in value:
-            y._PSRType = self
-        self._PowerSystemResources = value
+            y.PSRType = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Core/SubGeographicalRegion.py b/CIM14/CDPSM/Unbalanced/IEC61970/Core/SubGeographicalRegion.py
index 8db37aa..9a3ea0c 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Core/SubGeographicalRegion.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Core/SubGeographicalRegion.py
@@ -74,9 +74,9 @@ class SubGeographicalRegion(IdentifiedObject):
     def setLines(self, value):
         for x in self._Lines:
             x.Region = None
+        self._Lines = []
         for y in value:
-            y._Region = self
-        self._Lines = value
+            y.Region = self
 
     Lines = property(getLines, setLines)
 
@@ -96,9 +96,9 @@ class SubGeographicalRegion(IdentifiedObject):
     def setSubstations(self, value):
         for x in self._Substations:
             x.Region = None
+        self._Substations = []
         for y in value:
-            y._Region = self
-        self._Substations = value
+            y.Region = self
 
     Substations = property(getSubstations, setSubstations)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Core/Substation.py b/CIM14/CDPSM/Unbalanced/IEC61970/Core/Substation.py
index 29687e1..5d88bfe 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Core/Substation.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Core/Substation.py
@@ -70,9 +70,9 @@ class Substation(EquipmentContainer):
     def setVoltageLevels(self, value):
         for x in self._VoltageLevels:
             x.Substation = None
+        self._VoltageLevels = []
         for y in value:
-            y._Substation = self
-        self._VoltageLevels = value
+            y.Substation = self
 
     VoltageLevels = property(getVoltageLevels, setVoltageLevels)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Core/VoltageLevel.py b/CIM14/CDPSM/Unbalanced/IEC61970/Core/VoltageLevel.py
index f4b7d30..99e2aa7 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Core/VoltageLevel.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Core/VoltageLevel.py
@@ -82,9 +82,9 @@ class VoltageLevel(EquipmentContainer):
     def setBays(self, value):
         for x in self._Bays:
             x.VoltageLevel = None
+        self._Bays = []
         for y in value:
-            y._VoltageLevel = self
-        self._Bays = value
+            y.VoltageLevel = self
 
     Bays = property(getBays, setBays)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Generation/Production/GeneratingUnit.py b/CIM14/CDPSM/Unbalanced/IEC61970/Generation/Production/GeneratingUnit.py
index 4e5d64f..4ac8138 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Generation/Production/GeneratingUnit.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Generation/Production/GeneratingUnit.py
@@ -61,9 +61,9 @@ class GeneratingUnit(Equipment):
     def setSynchronousMachines(self, value):
         for x in self._SynchronousMachines:
             x.GeneratingUnit = None
+        self._SynchronousMachines = []
         for y in value:
-            y._GeneratingUnit = self
-        self._SynchronousMachines = value
+            y.GeneratingUnit = self
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/LoadModel/LoadResponseCharacteristic.py b/CIM14/CDPSM/Unbalanced/IEC61970/LoadModel/LoadResponseCharacteristic.py
index 99dbfc2..1446af7 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/LoadModel/LoadResponseCharacteristic.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/LoadModel/LoadResponseCharacteristic.py
@@ -93,9 +93,9 @@ class LoadResponseCharacteristic(IdentifiedObject):
     def setEnergyConsumer(self, value):
         for x in self._EnergyConsumer:
             x.LoadResponse = None
+        self._EnergyConsumer = []
         for y in value:
-            y._LoadResponse = self
-        self._EnergyConsumer = value
+            y.LoadResponse = self
 
     EnergyConsumer = property(getEnergyConsumer, setEnergyConsumer)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Topology/ConnectivityNode.py b/CIM14/CDPSM/Unbalanced/IEC61970/Topology/ConnectivityNode.py
index a1dc762..a918ecc 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Topology/ConnectivityNode.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Topology/ConnectivityNode.py
@@ -53,9 +53,9 @@ class ConnectivityNode(IdentifiedObject):
     def setTerminals(self, value):
         for x in self._Terminals:
             x.ConnectivityNode = None
+        self._Terminals = []
         for y in value:
-            y._ConnectivityNode = self
-        self._Terminals = value
+            y.ConnectivityNode = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/CPSM/Equipment/ControlArea/ControlArea.py b/CIM14/CPSM/Equipment/ControlArea/ControlArea.py
index f1ade1b..bf1b14e 100644
--- a/CIM14/CPSM/Equipment/ControlArea/ControlArea.py
+++ b/CIM14/CPSM/Equipment/ControlArea/ControlArea.py
@@ -69,9 +69,9 @@ class ControlArea(PowerSystemResource):
     def setControlAreaGeneratingUnit(self, value):
         for x in self._ControlAreaGeneratingUnit:
             x.ControlArea = None
+        self._ControlAreaGeneratingUnit = []
         for y in value:
-            y._ControlArea = self
-        self._ControlAreaGeneratingUnit = value
+            y.ControlArea = self
 
     ControlAreaGeneratingUnit = property(getControlAreaGeneratingUnit, setControlAreaGeneratingUnit)
 
@@ -107,9 +107,9 @@ class ControlArea(PowerSystemResource):
     def setTieFlow(self, value):
         for x in self._TieFlow:
             x.ControlArea = None
+        self._TieFlow = []
         for y in value:
-            y._ControlArea = self
-        self._TieFlow = value
+            y.ControlArea = self
 
     TieFlow = property(getTieFlow, setTieFlow)
 
diff --git a/CIM14/CPSM/Equipment/Core/BaseVoltage.py b/CIM14/CPSM/Equipment/Core/BaseVoltage.py
index 356b8ef..e4aa4a8 100644
--- a/CIM14/CPSM/Equipment/Core/BaseVoltage.py
+++ b/CIM14/CPSM/Equipment/Core/BaseVoltage.py
@@ -57,9 +57,9 @@ class BaseVoltage(IdentifiedObject):
     def setConductingEquipment(self, value):
         for x in self._ConductingEquipment:
             x.BaseVoltage = None
+        self._ConductingEquipment = []
         for y in value:
-            y._BaseVoltage = self
-        self._ConductingEquipment = value
+            y.BaseVoltage = self
 
     ConductingEquipment = property(getConductingEquipment, setConductingEquipment)
 
@@ -79,9 +79,9 @@ class BaseVoltage(IdentifiedObject):
     def setVoltageLevel(self, value):
         for x in self._VoltageLevel:
             x.BaseVoltage = None
+        self._VoltageLevel = []
         for y in value:
-            y._BaseVoltage = self
-        self._VoltageLevel = value
+            y.BaseVoltage = self
 
     VoltageLevel = property(getVoltageLevel, setVoltageLevel)
 
diff --git a/CIM14/CPSM/Equipment/Core/ConductingEquipment.py b/CIM14/CPSM/Equipment/Core/ConductingEquipment.py
index 9d64354..1fbb763 100644
--- a/CIM14/CPSM/Equipment/Core/ConductingEquipment.py
+++ b/CIM14/CPSM/Equipment/Core/ConductingEquipment.py
@@ -53,9 +53,9 @@ class ConductingEquipment(Equipment):
     def setTerminals(self, value):
         for x in self._Terminals:
             x.ConductingEquipment = None
+        self._Terminals = []
         for y in value:
-            y._ConductingEquipment = self
-        self._Terminals = value
+            y.ConductingEquipment = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/CPSM/Equipment/Core/ConnectivityNode.py b/CIM14/CPSM/Equipment/Core/ConnectivityNode.py
index 3fb7381..3f361ed 100644
--- a/CIM14/CPSM/Equipment/Core/ConnectivityNode.py
+++ b/CIM14/CPSM/Equipment/Core/ConnectivityNode.py
@@ -53,9 +53,9 @@ class ConnectivityNode(IdentifiedObject):
     def setTerminals(self, value):
         for x in self._Terminals:
             x.ConnectivityNode = None
+        self._Terminals = []
         for y in value:
-            y._ConnectivityNode = self
-        self._Terminals = value
+            y.ConnectivityNode = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/CPSM/Equipment/Core/ConnectivityNodeContainer.py b/CIM14/CPSM/Equipment/Core/ConnectivityNodeContainer.py
index 04e020b..8db76c7 100644
--- a/CIM14/CPSM/Equipment/Core/ConnectivityNodeContainer.py
+++ b/CIM14/CPSM/Equipment/Core/ConnectivityNodeContainer.py
@@ -49,9 +49,9 @@ class ConnectivityNodeContainer(PowerSystemResource):
     def setConnectivityNodes(self, value):
         for x in self._ConnectivityNodes:
             x.ConnectivityNodeContainer = None
+        self._ConnectivityNodes = []
         for y in value:
-            y._ConnectivityNodeContainer = self
-        self._ConnectivityNodes = value
+            y.ConnectivityNodeContainer = self
 
     ConnectivityNodes = property(getConnectivityNodes, setConnectivityNodes)
 
diff --git a/CIM14/CPSM/Equipment/Core/Curve.py b/CIM14/CPSM/Equipment/Core/Curve.py
index 609c6d3..d05746a 100644
--- a/CIM14/CPSM/Equipment/Core/Curve.py
+++ b/CIM14/CPSM/Equipment/Core/Curve.py
@@ -69,9 +69,9 @@ class Curve(IdentifiedObject):
     def setCurveDatas(self, value):
         for x in self._CurveDatas:
             x.Curve = None
+        self._CurveDatas = []
         for y in value:
-            y._Curve = self
-        self._CurveDatas = value
+            y.Curve = self
 
     CurveDatas = property(getCurveDatas, setCurveDatas)
 
diff --git a/CIM14/CPSM/Equipment/Core/Equipment.py b/CIM14/CPSM/Equipment/Core/Equipment.py
index 41baacb..7e6273a 100644
--- a/CIM14/CPSM/Equipment/Core/Equipment.py
+++ b/CIM14/CPSM/Equipment/Core/Equipment.py
@@ -57,9 +57,9 @@ class Equipment(PowerSystemResource):
     def setOperationalLimitSet(self, value):
         for x in self._OperationalLimitSet:
             x.Equipment = None
+        self._OperationalLimitSet = []
         for y in value:
-            y._Equipment = self
-        self._OperationalLimitSet = value
+            y.Equipment = self
 
     OperationalLimitSet = property(getOperationalLimitSet, setOperationalLimitSet)
 
diff --git a/CIM14/CPSM/Equipment/Core/EquipmentContainer.py b/CIM14/CPSM/Equipment/Core/EquipmentContainer.py
index c0119b5..38514d5 100644
--- a/CIM14/CPSM/Equipment/Core/EquipmentContainer.py
+++ b/CIM14/CPSM/Equipment/Core/EquipmentContainer.py
@@ -49,9 +49,9 @@ class EquipmentContainer(ConnectivityNodeContainer):
     def setEquipments(self, value):
         for x in self._Equipments:
             x.EquipmentContainer = None
+        self._Equipments = []
         for y in value:
-            y._EquipmentContainer = self
-        self._Equipments = value
+            y.EquipmentContainer = self
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM14/CPSM/Equipment/Core/GeographicalRegion.py b/CIM14/CPSM/Equipment/Core/GeographicalRegion.py
index 69cf219..c7c8986 100644
--- a/CIM14/CPSM/Equipment/Core/GeographicalRegion.py
+++ b/CIM14/CPSM/Equipment/Core/GeographicalRegion.py
@@ -49,9 +49,9 @@ class GeographicalRegion(IdentifiedObject):
     def setRegions(self, value):
         for x in self._Regions:
             x.Region = None
+        self._Regions = []
         for y in value:
-            y._Region = self
-        self._Regions = value
+            y.Region = self
 
     Regions = property(getRegions, setRegions)
 
diff --git a/CIM14/CPSM/Equipment/Core/PowerSystemResource.py b/CIM14/CPSM/Equipment/Core/PowerSystemResource.py
index df89656..a0c27ee 100644
--- a/CIM14/CPSM/Equipment/Core/PowerSystemResource.py
+++ b/CIM14/CPSM/Equipment/Core/PowerSystemResource.py
@@ -49,9 +49,9 @@ class PowerSystemResource(IdentifiedObject):
     def setMeasurements(self, value):
         for x in self._Measurements:
             x.PowerSystemResource = None
+        self._Measurements = []
         for y in value:
-            y._PowerSystemResource = self
-        self._Measurements = value
+            y.PowerSystemResource = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM14/CPSM/Equipment/Core/RegularIntervalSchedule.py b/CIM14/CPSM/Equipment/Core/RegularIntervalSchedule.py
index 156941f..f09c68b 100644
--- a/CIM14/CPSM/Equipment/Core/RegularIntervalSchedule.py
+++ b/CIM14/CPSM/Equipment/Core/RegularIntervalSchedule.py
@@ -57,9 +57,9 @@ class RegularIntervalSchedule(BasicIntervalSchedule):
     def setTimePoints(self, value):
         for x in self._TimePoints:
             x.IntervalSchedule = None
+        self._TimePoints = []
         for y in value:
-            y._IntervalSchedule = self
-        self._TimePoints = value
+            y.IntervalSchedule = self
 
     TimePoints = property(getTimePoints, setTimePoints)
 
diff --git a/CIM14/CPSM/Equipment/Core/SubGeographicalRegion.py b/CIM14/CPSM/Equipment/Core/SubGeographicalRegion.py
index b8ae44b..0423cbc 100644
--- a/CIM14/CPSM/Equipment/Core/SubGeographicalRegion.py
+++ b/CIM14/CPSM/Equipment/Core/SubGeographicalRegion.py
@@ -74,9 +74,9 @@ class SubGeographicalRegion(IdentifiedObject):
     def setLines(self, value):
         for x in self._Lines:
             x.Region = None
+        self._Lines = []
         for y in value:
-            y._Region = self
-        self._Lines = value
+            y.Region = self
 
     Lines = property(getLines, setLines)
 
@@ -96,9 +96,9 @@ class SubGeographicalRegion(IdentifiedObject):
     def setSubstations(self, value):
         for x in self._Substations:
             x.Region = None
+        self._Substations = []
         for y in value:
-            y._Region = self
-        self._Substations = value
+            y.Region = self
 
     Substations = property(getSubstations, setSubstations)
 
diff --git a/CIM14/CPSM/Equipment/Core/Substation.py b/CIM14/CPSM/Equipment/Core/Substation.py
index fd795c6..22480a0 100644
--- a/CIM14/CPSM/Equipment/Core/Substation.py
+++ b/CIM14/CPSM/Equipment/Core/Substation.py
@@ -70,9 +70,9 @@ class Substation(EquipmentContainer):
     def setVoltageLevels(self, value):
         for x in self._VoltageLevels:
             x.Substation = None
+        self._VoltageLevels = []
         for y in value:
-            y._Substation = self
-        self._VoltageLevels = value
+            y.Substation = self
 
     VoltageLevels = property(getVoltageLevels, setVoltageLevels)
 
diff --git a/CIM14/CPSM/Equipment/Core/Terminal.py b/CIM14/CPSM/Equipment/Core/Terminal.py
index 094b30b..aafcbaa 100644
--- a/CIM14/CPSM/Equipment/Core/Terminal.py
+++ b/CIM14/CPSM/Equipment/Core/Terminal.py
@@ -81,9 +81,9 @@ class Terminal(IdentifiedObject):
     def setOperationalLimitSet(self, value):
         for x in self._OperationalLimitSet:
             x.Terminal = None
+        self._OperationalLimitSet = []
         for y in value:
-            y._Terminal = self
-        self._OperationalLimitSet = value
+            y.Terminal = self
 
     OperationalLimitSet = property(getOperationalLimitSet, setOperationalLimitSet)
 
@@ -120,9 +120,9 @@ class Terminal(IdentifiedObject):
     def setHasFirst_MutualCoupling(self, value):
         for x in self._HasFirst_MutualCoupling:
             x.First_Terminal = None
+        self._HasFirst_MutualCoupling = []
         for y in value:
-            y._First_Terminal = self
-        self._HasFirst_MutualCoupling = value
+            y.First_Terminal = self
 
     HasFirst_MutualCoupling = property(getHasFirst_MutualCoupling, setHasFirst_MutualCoupling)
 
@@ -142,9 +142,9 @@ class Terminal(IdentifiedObject):
     def setMeasurements(self, value):
         for x in self._Measurements:
             x.Terminal = None
+        self._Measurements = []
         for y in value:
-            y._Terminal = self
-        self._Measurements = value
+            y.Terminal = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
@@ -181,9 +181,9 @@ class Terminal(IdentifiedObject):
     def setRegulatingControl(self, value):
         for x in self._RegulatingControl:
             x.Terminal = None
+        self._RegulatingControl = []
         for y in value:
-            y._Terminal = self
-        self._RegulatingControl = value
+            y.Terminal = self
 
     RegulatingControl = property(getRegulatingControl, setRegulatingControl)
 
@@ -203,9 +203,9 @@ class Terminal(IdentifiedObject):
     def setTieFlow(self, value):
         for x in self._TieFlow:
             x.Terminal = None
+        self._TieFlow = []
         for y in value:
-            y._Terminal = self
-        self._TieFlow = value
+            y.Terminal = self
 
     TieFlow = property(getTieFlow, setTieFlow)
 
@@ -225,9 +225,9 @@ class Terminal(IdentifiedObject):
     def setHasSecond_MutualCoupling(self, value):
         for x in self._HasSecond_MutualCoupling:
             x.Second_Terminal = None
+        self._HasSecond_MutualCoupling = []
         for y in value:
-            y._Second_Terminal = self
-        self._HasSecond_MutualCoupling = value
+            y.Second_Terminal = self
 
     HasSecond_MutualCoupling = property(getHasSecond_MutualCoupling, setHasSecond_MutualCoupling)
 
diff --git a/CIM14/CPSM/Equipment/Core/Unit.py b/CIM14/CPSM/Equipment/Core/Unit.py
index 40a5184..a6d84ca 100644
--- a/CIM14/CPSM/Equipment/Core/Unit.py
+++ b/CIM14/CPSM/Equipment/Core/Unit.py
@@ -49,9 +49,9 @@ class Unit(IdentifiedObject):
     def setMeasurements(self, value):
         for x in self._Measurements:
             x.Unit = None
+        self._Measurements = []
         for y in value:
-            y._Unit = self
-        self._Measurements = value
+            y.Unit = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM14/CPSM/Equipment/Core/VoltageLevel.py b/CIM14/CPSM/Equipment/Core/VoltageLevel.py
index 3dff110..8550a57 100644
--- a/CIM14/CPSM/Equipment/Core/VoltageLevel.py
+++ b/CIM14/CPSM/Equipment/Core/VoltageLevel.py
@@ -82,9 +82,9 @@ class VoltageLevel(EquipmentContainer):
     def setBays(self, value):
         for x in self._Bays:
             x.VoltageLevel = None
+        self._Bays = []
         for y in value:
-            y._VoltageLevel = self
-        self._Bays = value
+            y.VoltageLevel = self
 
     Bays = property(getBays, setBays)
 
diff --git a/CIM14/CPSM/Equipment/Equivalents/EquivalentNetwork.py b/CIM14/CPSM/Equipment/Equivalents/EquivalentNetwork.py
index aff989f..e176c17 100644
--- a/CIM14/CPSM/Equipment/Equivalents/EquivalentNetwork.py
+++ b/CIM14/CPSM/Equipment/Equivalents/EquivalentNetwork.py
@@ -49,9 +49,9 @@ class EquivalentNetwork(ConnectivityNodeContainer):
     def setEquivalentEquipments(self, value):
         for x in self._EquivalentEquipments:
             x.EquivalentNetwork = None
+        self._EquivalentEquipments = []
         for y in value:
-            y._EquivalentNetwork = self
-        self._EquivalentEquipments = value
+            y.EquivalentNetwork = self
 
     EquivalentEquipments = property(getEquivalentEquipments, setEquivalentEquipments)
 
diff --git a/CIM14/CPSM/Equipment/Generation/Production/GeneratingUnit.py b/CIM14/CPSM/Equipment/Generation/Production/GeneratingUnit.py
index e4aec15..4e920d3 100644
--- a/CIM14/CPSM/Equipment/Generation/Production/GeneratingUnit.py
+++ b/CIM14/CPSM/Equipment/Generation/Production/GeneratingUnit.py
@@ -117,9 +117,9 @@ class GeneratingUnit(Equipment):
     def setSynchronousMachines(self, value):
         for x in self._SynchronousMachines:
             x.GeneratingUnit = None
+        self._SynchronousMachines = []
         for y in value:
-            y._GeneratingUnit = self
-        self._SynchronousMachines = value
+            y.GeneratingUnit = self
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
@@ -139,9 +139,9 @@ class GeneratingUnit(Equipment):
     def setControlAreaGeneratingUnit(self, value):
         for x in self._ControlAreaGeneratingUnit:
             x.GeneratingUnit = None
+        self._ControlAreaGeneratingUnit = []
         for y in value:
-            y._GeneratingUnit = self
-        self._ControlAreaGeneratingUnit = value
+            y.GeneratingUnit = self
 
     ControlAreaGeneratingUnit = property(getControlAreaGeneratingUnit, setControlAreaGeneratingUnit)
 
@@ -161,9 +161,9 @@ class GeneratingUnit(Equipment):
     def setGrossToNetActivePowerCurves(self, value):
         for x in self._GrossToNetActivePowerCurves:
             x.GeneratingUnit = None
+        self._GrossToNetActivePowerCurves = []
         for y in value:
-            y._GeneratingUnit = self
-        self._GrossToNetActivePowerCurves = value
+            y.GeneratingUnit = self
 
     GrossToNetActivePowerCurves = property(getGrossToNetActivePowerCurves, setGrossToNetActivePowerCurves)
 
diff --git a/CIM14/CPSM/Equipment/LoadModel/ConformLoadGroup.py b/CIM14/CPSM/Equipment/LoadModel/ConformLoadGroup.py
index 754bc73..39f60ad 100644
--- a/CIM14/CPSM/Equipment/LoadModel/ConformLoadGroup.py
+++ b/CIM14/CPSM/Equipment/LoadModel/ConformLoadGroup.py
@@ -53,9 +53,9 @@ class ConformLoadGroup(LoadGroup):
     def setEnergyConsumers(self, value):
         for x in self._EnergyConsumers:
             x.LoadGroup = None
+        self._EnergyConsumers = []
         for y in value:
-            y._LoadGroup = self
-        self._EnergyConsumers = value
+            y.LoadGroup = self
 
     EnergyConsumers = property(getEnergyConsumers, setEnergyConsumers)
 
@@ -75,9 +75,9 @@ class ConformLoadGroup(LoadGroup):
     def setConformLoadSchedules(self, value):
         for x in self._ConformLoadSchedules:
             x.ConformLoadGroup = None
+        self._ConformLoadSchedules = []
         for y in value:
-            y._ConformLoadGroup = self
-        self._ConformLoadSchedules = value
+            y.ConformLoadGroup = self
 
     ConformLoadSchedules = property(getConformLoadSchedules, setConformLoadSchedules)
 
diff --git a/CIM14/CPSM/Equipment/LoadModel/DayType.py b/CIM14/CPSM/Equipment/LoadModel/DayType.py
index 57fb14e..6815009 100644
--- a/CIM14/CPSM/Equipment/LoadModel/DayType.py
+++ b/CIM14/CPSM/Equipment/LoadModel/DayType.py
@@ -49,9 +49,9 @@ class DayType(IdentifiedObject):
     def setSeasonDayTypeSchedules(self, value):
         for x in self._SeasonDayTypeSchedules:
             x.DayType = None
+        self._SeasonDayTypeSchedules = []
         for y in value:
-            y._DayType = self
-        self._SeasonDayTypeSchedules = value
+            y.DayType = self
 
     SeasonDayTypeSchedules = property(getSeasonDayTypeSchedules, setSeasonDayTypeSchedules)
 
diff --git a/CIM14/CPSM/Equipment/LoadModel/LoadArea.py b/CIM14/CPSM/Equipment/LoadModel/LoadArea.py
index edf328f..c1d018d 100644
--- a/CIM14/CPSM/Equipment/LoadModel/LoadArea.py
+++ b/CIM14/CPSM/Equipment/LoadModel/LoadArea.py
@@ -49,9 +49,9 @@ class LoadArea(EnergyArea):
     def setSubLoadAreas(self, value):
         for x in self._SubLoadAreas:
             x.LoadArea = None
+        self._SubLoadAreas = []
         for y in value:
-            y._LoadArea = self
-        self._SubLoadAreas = value
+            y.LoadArea = self
 
     SubLoadAreas = property(getSubLoadAreas, setSubLoadAreas)
 
diff --git a/CIM14/CPSM/Equipment/LoadModel/LoadResponseCharacteristic.py b/CIM14/CPSM/Equipment/LoadModel/LoadResponseCharacteristic.py
index 9e672c6..5af1da3 100644
--- a/CIM14/CPSM/Equipment/LoadModel/LoadResponseCharacteristic.py
+++ b/CIM14/CPSM/Equipment/LoadModel/LoadResponseCharacteristic.py
@@ -93,9 +93,9 @@ class LoadResponseCharacteristic(IdentifiedObject):
     def setEnergyConsumer(self, value):
         for x in self._EnergyConsumer:
             x.LoadResponse = None
+        self._EnergyConsumer = []
         for y in value:
-            y._LoadResponse = self
-        self._EnergyConsumer = value
+            y.LoadResponse = self
 
     EnergyConsumer = property(getEnergyConsumer, setEnergyConsumer)
 
diff --git a/CIM14/CPSM/Equipment/LoadModel/NonConformLoadGroup.py b/CIM14/CPSM/Equipment/LoadModel/NonConformLoadGroup.py
index e605d28..2491c82 100644
--- a/CIM14/CPSM/Equipment/LoadModel/NonConformLoadGroup.py
+++ b/CIM14/CPSM/Equipment/LoadModel/NonConformLoadGroup.py
@@ -53,9 +53,9 @@ class NonConformLoadGroup(LoadGroup):
     def setNonConformLoadSchedules(self, value):
         for x in self._NonConformLoadSchedules:
             x.NonConformLoadGroup = None
+        self._NonConformLoadSchedules = []
         for y in value:
-            y._NonConformLoadGroup = self
-        self._NonConformLoadSchedules = value
+            y.NonConformLoadGroup = self
 
     NonConformLoadSchedules = property(getNonConformLoadSchedules, setNonConformLoadSchedules)
 
@@ -75,9 +75,9 @@ class NonConformLoadGroup(LoadGroup):
     def setEnergyConsumers(self, value):
         for x in self._EnergyConsumers:
             x.LoadGroup = None
+        self._EnergyConsumers = []
         for y in value:
-            y._LoadGroup = self
-        self._EnergyConsumers = value
+            y.LoadGroup = self
 
     EnergyConsumers = property(getEnergyConsumers, setEnergyConsumers)
 
diff --git a/CIM14/CPSM/Equipment/LoadModel/Season.py b/CIM14/CPSM/Equipment/LoadModel/Season.py
index bb77d91..2830bc7 100644
--- a/CIM14/CPSM/Equipment/LoadModel/Season.py
+++ b/CIM14/CPSM/Equipment/LoadModel/Season.py
@@ -61,9 +61,9 @@ class Season(Element):
     def setSeasonDayTypeSchedules(self, value):
         for x in self._SeasonDayTypeSchedules:
             x.Season = None
+        self._SeasonDayTypeSchedules = []
         for y in value:
-            y._Season = self
-        self._SeasonDayTypeSchedules = value
+            y.Season = self
 
     SeasonDayTypeSchedules = property(getSeasonDayTypeSchedules, setSeasonDayTypeSchedules)
 
diff --git a/CIM14/CPSM/Equipment/LoadModel/SubLoadArea.py b/CIM14/CPSM/Equipment/LoadModel/SubLoadArea.py
index 819c97d..0f9a982 100644
--- a/CIM14/CPSM/Equipment/LoadModel/SubLoadArea.py
+++ b/CIM14/CPSM/Equipment/LoadModel/SubLoadArea.py
@@ -53,9 +53,9 @@ class SubLoadArea(EnergyArea):
     def setLoadGroups(self, value):
         for x in self._LoadGroups:
             x.SubLoadArea = None
+        self._LoadGroups = []
         for y in value:
-            y._SubLoadArea = self
-        self._LoadGroups = value
+            y.SubLoadArea = self
 
     LoadGroups = property(getLoadGroups, setLoadGroups)
 
diff --git a/CIM14/CPSM/Equipment/Meas/Accumulator.py b/CIM14/CPSM/Equipment/Meas/Accumulator.py
index 675f2fb..f7aa00d 100644
--- a/CIM14/CPSM/Equipment/Meas/Accumulator.py
+++ b/CIM14/CPSM/Equipment/Meas/Accumulator.py
@@ -49,9 +49,9 @@ class Accumulator(Measurement):
     def setAccumulatorValues(self, value):
         for x in self._AccumulatorValues:
             x.Accumulator = None
+        self._AccumulatorValues = []
         for y in value:
-            y._Accumulator = self
-        self._AccumulatorValues = value
+            y.Accumulator = self
 
     AccumulatorValues = property(getAccumulatorValues, setAccumulatorValues)
 
diff --git a/CIM14/CPSM/Equipment/Meas/Analog.py b/CIM14/CPSM/Equipment/Meas/Analog.py
index 5d8edd5..a9bdf07 100644
--- a/CIM14/CPSM/Equipment/Meas/Analog.py
+++ b/CIM14/CPSM/Equipment/Meas/Analog.py
@@ -53,9 +53,9 @@ class Analog(Measurement):
     def setAnalogValues(self, value):
         for x in self._AnalogValues:
             x.Analog = None
+        self._AnalogValues = []
         for y in value:
-            y._Analog = self
-        self._AnalogValues = value
+            y.Analog = self
 
     AnalogValues = property(getAnalogValues, setAnalogValues)
 
diff --git a/CIM14/CPSM/Equipment/Meas/Discrete.py b/CIM14/CPSM/Equipment/Meas/Discrete.py
index 1aaa558..8a88a1f 100644
--- a/CIM14/CPSM/Equipment/Meas/Discrete.py
+++ b/CIM14/CPSM/Equipment/Meas/Discrete.py
@@ -49,9 +49,9 @@ class Discrete(Measurement):
     def setDiscreteValues(self, value):
         for x in self._DiscreteValues:
             x.Discrete = None
+        self._DiscreteValues = []
         for y in value:
-            y._Discrete = self
-        self._DiscreteValues = value
+            y.Discrete = self
 
     DiscreteValues = property(getDiscreteValues, setDiscreteValues)
 
diff --git a/CIM14/CPSM/Equipment/Meas/MeasurementValueSource.py b/CIM14/CPSM/Equipment/Meas/MeasurementValueSource.py
index 5156847..a84343f 100644
--- a/CIM14/CPSM/Equipment/Meas/MeasurementValueSource.py
+++ b/CIM14/CPSM/Equipment/Meas/MeasurementValueSource.py
@@ -49,9 +49,9 @@ class MeasurementValueSource(IdentifiedObject):
     def setMeasurementValues(self, value):
         for x in self._MeasurementValues:
             x.MeasurementValueSource = None
+        self._MeasurementValues = []
         for y in value:
-            y._MeasurementValueSource = self
-        self._MeasurementValues = value
+            y.MeasurementValueSource = self
 
     MeasurementValues = property(getMeasurementValues, setMeasurementValues)
 
diff --git a/CIM14/CPSM/Equipment/OperationalLimits/OperationalLimitSet.py b/CIM14/CPSM/Equipment/OperationalLimits/OperationalLimitSet.py
index 1c9cf41..4164bc9 100644
--- a/CIM14/CPSM/Equipment/OperationalLimits/OperationalLimitSet.py
+++ b/CIM14/CPSM/Equipment/OperationalLimits/OperationalLimitSet.py
@@ -91,9 +91,9 @@ class OperationalLimitSet(IdentifiedObject):
     def setOperationalLimitValue(self, value):
         for x in self._OperationalLimitValue:
             x.OperationalLimitSet = None
+        self._OperationalLimitValue = []
         for y in value:
-            y._OperationalLimitSet = self
-        self._OperationalLimitValue = value
+            y.OperationalLimitSet = self
 
     OperationalLimitValue = property(getOperationalLimitValue, setOperationalLimitValue)
 
diff --git a/CIM14/CPSM/Equipment/Wires/PowerTransformer.py b/CIM14/CPSM/Equipment/Wires/PowerTransformer.py
index a8493f5..84769c5 100644
--- a/CIM14/CPSM/Equipment/Wires/PowerTransformer.py
+++ b/CIM14/CPSM/Equipment/Wires/PowerTransformer.py
@@ -49,9 +49,9 @@ class PowerTransformer(Equipment):
     def setTransformerWindings(self, value):
         for x in self._TransformerWindings:
             x.PowerTransformer = None
+        self._TransformerWindings = []
         for y in value:
-            y._PowerTransformer = self
-        self._TransformerWindings = value
+            y.PowerTransformer = self
 
     TransformerWindings = property(getTransformerWindings, setTransformerWindings)
 
diff --git a/CIM14/CPSM/Equipment/Wires/ReactiveCapabilityCurve.py b/CIM14/CPSM/Equipment/Wires/ReactiveCapabilityCurve.py
index 73b623a..8c0c681 100644
--- a/CIM14/CPSM/Equipment/Wires/ReactiveCapabilityCurve.py
+++ b/CIM14/CPSM/Equipment/Wires/ReactiveCapabilityCurve.py
@@ -49,9 +49,9 @@ class ReactiveCapabilityCurve(Curve):
     def setInitiallyUsedBySynchronousMachines(self, value):
         for x in self._InitiallyUsedBySynchronousMachines:
             x.InitialReactiveCapabilityCurve = None
+        self._InitiallyUsedBySynchronousMachines = []
         for y in value:
-            y._InitialReactiveCapabilityCurve = self
-        self._InitiallyUsedBySynchronousMachines = value
+            y.InitialReactiveCapabilityCurve = self
 
     InitiallyUsedBySynchronousMachines = property(getInitiallyUsedBySynchronousMachines, setInitiallyUsedBySynchronousMachines)
 
diff --git a/CIM14/CPSM/Equipment/Wires/RegulatingControl.py b/CIM14/CPSM/Equipment/Wires/RegulatingControl.py
index fd05068..8fa3405 100644
--- a/CIM14/CPSM/Equipment/Wires/RegulatingControl.py
+++ b/CIM14/CPSM/Equipment/Wires/RegulatingControl.py
@@ -77,9 +77,9 @@ class RegulatingControl(PowerSystemResource):
     def setRegulationSchedule(self, value):
         for x in self._RegulationSchedule:
             x.RegulatingControl = None
+        self._RegulationSchedule = []
         for y in value:
-            y._RegulatingControl = self
-        self._RegulationSchedule = value
+            y.RegulatingControl = self
 
     RegulationSchedule = property(getRegulationSchedule, setRegulationSchedule)
 
@@ -116,9 +116,9 @@ class RegulatingControl(PowerSystemResource):
     def setRegulatingCondEq(self, value):
         for x in self._RegulatingCondEq:
             x.RegulatingControl = None
+        self._RegulatingCondEq = []
         for y in value:
-            y._RegulatingControl = self
-        self._RegulatingCondEq = value
+            y.RegulatingControl = self
 
     RegulatingCondEq = property(getRegulatingCondEq, setRegulatingCondEq)
 
@@ -138,9 +138,9 @@ class RegulatingControl(PowerSystemResource):
     def setTapChanger(self, value):
         for x in self._TapChanger:
             x.RegulatingControl = None
+        self._TapChanger = []
         for y in value:
-            y._RegulatingControl = self
-        self._TapChanger = value
+            y.RegulatingControl = self
 
     TapChanger = property(getTapChanger, setTapChanger)
 
diff --git a/CIM14/CPSM/Equipment/Wires/Switch.py b/CIM14/CPSM/Equipment/Wires/Switch.py
index 037b0ca..10f05c2 100644
--- a/CIM14/CPSM/Equipment/Wires/Switch.py
+++ b/CIM14/CPSM/Equipment/Wires/Switch.py
@@ -53,9 +53,9 @@ class Switch(ConductingEquipment):
     def setSwitchSchedules(self, value):
         for x in self._SwitchSchedules:
             x.Switch = None
+        self._SwitchSchedules = []
         for y in value:
-            y._Switch = self
-        self._SwitchSchedules = value
+            y.Switch = self
 
     SwitchSchedules = property(getSwitchSchedules, setSwitchSchedules)
 
diff --git a/CIM14/CPSM/Equipment/Wires/TapChanger.py b/CIM14/CPSM/Equipment/Wires/TapChanger.py
index f8aa63c..d7c5080 100644
--- a/CIM14/CPSM/Equipment/Wires/TapChanger.py
+++ b/CIM14/CPSM/Equipment/Wires/TapChanger.py
@@ -89,9 +89,9 @@ class TapChanger(PowerSystemResource):
     def setTapSchedules(self, value):
         for x in self._TapSchedules:
             x.TapChanger = None
+        self._TapSchedules = []
         for y in value:
-            y._TapChanger = self
-        self._TapSchedules = value
+            y.TapChanger = self
 
     TapSchedules = property(getTapSchedules, setTapSchedules)
 
diff --git a/CIM14/CPSM/StateVariables/StateVariables/TopologicalIsland.py b/CIM14/CPSM/StateVariables/StateVariables/TopologicalIsland.py
index 2aed487..cc0c10b 100644
--- a/CIM14/CPSM/StateVariables/StateVariables/TopologicalIsland.py
+++ b/CIM14/CPSM/StateVariables/StateVariables/TopologicalIsland.py
@@ -69,9 +69,9 @@ class TopologicalIsland(Element):
     def setTopologicalNodes(self, value):
         for x in self._TopologicalNodes:
             x.TopologicalIsland = None
+        self._TopologicalNodes = []
         for y in value:
-            y._TopologicalIsland = self
-        self._TopologicalNodes = value
+            y.TopologicalIsland = self
 
     TopologicalNodes = property(getTopologicalNodes, setTopologicalNodes)
 
diff --git a/CIM14/CPSM/Topology/Core/BaseVoltage.py b/CIM14/CPSM/Topology/Core/BaseVoltage.py
index 49126f3..df4b1f4 100644
--- a/CIM14/CPSM/Topology/Core/BaseVoltage.py
+++ b/CIM14/CPSM/Topology/Core/BaseVoltage.py
@@ -49,9 +49,9 @@ class BaseVoltage(IdentifiedObject):
     def setTopologicalNode(self, value):
         for x in self._TopologicalNode:
             x.BaseVoltage = None
+        self._TopologicalNode = []
         for y in value:
-            y._BaseVoltage = self
-        self._TopologicalNode = value
+            y.BaseVoltage = self
 
     TopologicalNode = property(getTopologicalNode, setTopologicalNode)
 
diff --git a/CIM14/CPSM/Topology/Topology/TopologicalNode.py b/CIM14/CPSM/Topology/Topology/TopologicalNode.py
index b901be0..1bc9a2a 100644
--- a/CIM14/CPSM/Topology/Topology/TopologicalNode.py
+++ b/CIM14/CPSM/Topology/Topology/TopologicalNode.py
@@ -57,9 +57,9 @@ class TopologicalNode(IdentifiedObject):
     def setConnectivityNodes(self, value):
         for x in self._ConnectivityNodes:
             x.TopologicalNode = None
+        self._ConnectivityNodes = []
         for y in value:
-            y._TopologicalNode = self
-        self._ConnectivityNodes = value
+            y.TopologicalNode = self
 
     ConnectivityNodes = property(getConnectivityNodes, setConnectivityNodes)
 
@@ -96,9 +96,9 @@ class TopologicalNode(IdentifiedObject):
     def setTerminal(self, value):
         for x in self._Terminal:
             x.TopologicalNode = None
+        self._Terminal = []
         for y in value:
-            y._TopologicalNode = self
-        self._Terminal = value
+            y.TopologicalNode = self
 
     Terminal = property(getTerminal, setTerminal)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61968/Common/CommonLocation.py b/CIM14/ENTSOE/Dynamics/IEC61968/Common/CommonLocation.py
index 0901f36..1bfa41f 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61968/Common/CommonLocation.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61968/Common/CommonLocation.py
@@ -47,9 +47,9 @@ class CommonLocation(CoreIdentifiedObject):
     def setPowerSystemResources(self, value):
         for x in self._PowerSystemResources:
             x.Location = None
+        self._PowerSystemResources = []
         for y in value:
-            y._Location = self
-        self._PowerSystemResources = value
+            y.Location = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreBaseVoltage.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreBaseVoltage.py
index ffdca42..b7f31ea 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreBaseVoltage.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreBaseVoltage.py
@@ -47,9 +47,9 @@ class CoreBaseVoltage(CoreIdentifiedObject):
     def setConductingEquipment(self, value):
         for x in self._ConductingEquipment:
             x.BaseVoltage = None
+        self._ConductingEquipment = []
         for y in value:
-            y._BaseVoltage = self
-        self._ConductingEquipment = value
+            y.BaseVoltage = self
 
     ConductingEquipment = property(getConductingEquipment, setConductingEquipment)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py
index 3150ff3..13cc2bf 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py
@@ -81,9 +81,9 @@ class CoreConductingEquipment(CoreEquipment):
     def setClearanceTags(self, value):
         for x in self._ClearanceTags:
             x.ConductingEquipment = None
+        self._ClearanceTags = []
         for y in value:
-            y._ConductingEquipment = self
-        self._ClearanceTags = value
+            y.ConductingEquipment = self
 
     ClearanceTags = property(getClearanceTags, setClearanceTags)
 
@@ -102,9 +102,9 @@ class CoreConductingEquipment(CoreEquipment):
     def setTerminals(self, value):
         for x in self._Terminals:
             x.ConductingEquipment = None
+        self._Terminals = []
         for y in value:
-            y._ConductingEquipment = self
-        self._Terminals = value
+            y.ConductingEquipment = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py
index e00dc2b..fbfacae 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py
@@ -66,9 +66,9 @@ class CoreEquipment(CorePowerSystemResource):
     def setContingencyEquipment(self, value):
         for x in self._ContingencyEquipment:
             x.Equipment = None
+        self._ContingencyEquipment = []
         for y in value:
-            y._Equipment = self
-        self._ContingencyEquipment = value
+            y.Equipment = self
 
     ContingencyEquipment = property(getContingencyEquipment, setContingencyEquipment)
 
@@ -133,9 +133,9 @@ class CoreEquipment(CorePowerSystemResource):
     def setOperationalLimitSet(self, value):
         for x in self._OperationalLimitSet:
             x.Equipment = None
+        self._OperationalLimitSet = []
         for y in value:
-            y._Equipment = self
-        self._OperationalLimitSet = value
+            y.Equipment = self
 
     OperationalLimitSet = property(getOperationalLimitSet, setOperationalLimitSet)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipmentContainer.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipmentContainer.py
index 99d0032..9b9ebd1 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipmentContainer.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipmentContainer.py
@@ -47,9 +47,9 @@ class CoreEquipmentContainer(CorePowerSystemResource):
     def setEquipments(self, value):
         for x in self._Equipments:
             x.EquipmentContainer = None
+        self._Equipments = []
         for y in value:
-            y._EquipmentContainer = self
-        self._Equipments = value
+            y.EquipmentContainer = self
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePSRType.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePSRType.py
index 178df7c..1d2ed8e 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePSRType.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePSRType.py
@@ -47,9 +47,9 @@ class CorePSRType(CoreIdentifiedObject):
     def setPowerSystemResources(self, value):
         for x in self._PowerSystemResources:
             x.PSRType = None
+        self._PowerSystemResources = []
         for y in value:
-            y._PSRType = self
-        self._PowerSystemResources = value
+            y.PSRType = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py
index 114f89c..8ef0877 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py
@@ -78,9 +78,9 @@ class CorePowerSystemResource(CoreIdentifiedObject):
     def setBlock(self, value):
         for x in self._Block:
             x.PowerSystemResource = None
+        self._Block = []
         for y in value:
-            y._PowerSystemResource = self
-        self._Block = value
+            y.PowerSystemResource = self
 
     Block = property(getBlock, setBlock)
 
@@ -175,9 +175,9 @@ class CorePowerSystemResource(CoreIdentifiedObject):
     def setOperatingShare(self, value):
         for x in self._OperatingShare:
             x.PowerSystemResource = None
+        self._OperatingShare = []
         for y in value:
-            y._PowerSystemResource = self
-        self._OperatingShare = value
+            y.PowerSystemResource = self
 
     OperatingShare = property(getOperatingShare, setOperatingShare)
 
@@ -211,9 +211,9 @@ class CorePowerSystemResource(CoreIdentifiedObject):
     def setMeasurements(self, value):
         for x in self._Measurements:
             x.PowerSystemResource = None
+        self._Measurements = []
         for y in value:
-            y._PowerSystemResource = self
-        self._Measurements = value
+            y.PowerSystemResource = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsBlock.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsBlock.py
index 582c861..6388c2e 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsBlock.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsBlock.py
@@ -71,9 +71,9 @@ class DynamicsBlock(CorePowerSystemResource):
     def setBlockParameter(self, value):
         for x in self._BlockParameter:
             x.MemberOf_Block = None
+        self._BlockParameter = []
         for y in value:
-            y._MemberOf_Block = self
-        self._BlockParameter = value
+            y.MemberOf_Block = self
 
     BlockParameter = property(getBlockParameter, setBlockParameter)
 
@@ -109,9 +109,9 @@ class DynamicsBlock(CorePowerSystemResource):
     def setBlockConnection(self, value):
         for x in self._BlockConnection:
             x.Block = None
+        self._BlockConnection = []
         for y in value:
-            y._Block = self
-        self._BlockConnection = value
+            y.Block = self
 
     BlockConnection = property(getBlockConnection, setBlockConnection)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsBlockConnectivity.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsBlockConnectivity.py
index 5dffa2d..5cec3b5 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsBlockConnectivity.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsBlockConnectivity.py
@@ -55,9 +55,9 @@ class DynamicsBlockConnectivity(CoreIdentifiedObject):
     def setBlock(self, value):
         for x in self._Block:
             x.MemberOf_BlockConnectivity = None
+        self._Block = []
         for y in value:
-            y._MemberOf_BlockConnectivity = self
-        self._Block = value
+            y.MemberOf_BlockConnectivity = self
 
     Block = property(getBlock, setBlock)
 
@@ -77,9 +77,9 @@ class DynamicsBlockConnectivity(CoreIdentifiedObject):
     def setBlockConnection(self, value):
         for x in self._BlockConnection:
             x.MemberOf_BlockConnectivity = None
+        self._BlockConnection = []
         for y in value:
-            y._MemberOf_BlockConnectivity = self
-        self._BlockConnection = value
+            y.MemberOf_BlockConnectivity = self
 
     BlockConnection = property(getBlockConnection, setBlockConnection)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlock.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlock.py
index 83e3b26..62d99d4 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlock.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlock.py
@@ -79,9 +79,9 @@ class DynamicsMetaBlock(CoreIdentifiedObject):
     def setBlock(self, value):
         for x in self._Block:
             x.MetaBlock = None
+        self._Block = []
         for y in value:
-            y._MetaBlock = self
-        self._Block = value
+            y.MetaBlock = self
 
     Block = property(getBlock, setBlock)
 
@@ -101,9 +101,9 @@ class DynamicsMetaBlock(CoreIdentifiedObject):
     def setMetaBlockSignal(self, value):
         for x in self._MetaBlockSignal:
             x.MemberOf_MetaBlock = None
+        self._MetaBlockSignal = []
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockSignal = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockSignal = property(getMetaBlockSignal, setMetaBlockSignal)
 
@@ -123,9 +123,9 @@ class DynamicsMetaBlock(CoreIdentifiedObject):
     def setMetaBlockReference(self, value):
         for x in self._MetaBlockReference:
             x.MemberOf_MetaBlock = None
+        self._MetaBlockReference = []
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockReference = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockReference = property(getMetaBlockReference, setMetaBlockReference)
 
@@ -145,9 +145,9 @@ class DynamicsMetaBlock(CoreIdentifiedObject):
     def setMetaBlockParameter(self, value):
         for x in self._MetaBlockParameter:
             x.MemberOf_MetaBlock = None
+        self._MetaBlockParameter = []
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockParameter = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockParameter = property(getMetaBlockParameter, setMetaBlockParameter)
 
@@ -167,9 +167,9 @@ class DynamicsMetaBlock(CoreIdentifiedObject):
     def setMetaBlockOutput(self, value):
         for x in self._MetaBlockOutput:
             x.MemberOf_MetaBlock = None
+        self._MetaBlockOutput = []
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockOutput = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockOutput = property(getMetaBlockOutput, setMetaBlockOutput)
 
@@ -189,9 +189,9 @@ class DynamicsMetaBlock(CoreIdentifiedObject):
     def setMetaBlockInput(self, value):
         for x in self._MetaBlockInput:
             x.MemberOf_MetaBlock = None
+        self._MetaBlockInput = []
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockInput = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockInput = property(getMetaBlockInput, setMetaBlockInput)
 
@@ -211,9 +211,9 @@ class DynamicsMetaBlock(CoreIdentifiedObject):
     def setMetaBlockState(self, value):
         for x in self._MetaBlockState:
             x.MemberOf_MetaBlock = None
+        self._MetaBlockState = []
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockState = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockState = property(getMetaBlockState, setMetaBlockState)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConOutput.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConOutput.py
index 87dddfb..3f29cf4 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConOutput.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConOutput.py
@@ -67,9 +67,9 @@ class DynamicsMetaBlockConOutput(CoreIdentifiedObject):
     def setMetaBlockConSignal(self, value):
         for x in self._MetaBlockConSignal:
             x.MetaBlockConOutput = None
+        self._MetaBlockConSignal = []
         for y in value:
-            y._MetaBlockConOutput = self
-        self._MetaBlockConSignal = value
+            y.MetaBlockConOutput = self
 
     MetaBlockConSignal = property(getMetaBlockConSignal, setMetaBlockConSignal)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnectable.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnectable.py
index 3dd4d05..17a3b43 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnectable.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnectable.py
@@ -75,9 +75,9 @@ class DynamicsMetaBlockConnectable(CoreIdentifiedObject):
     def setMetaBlockParameterReference(self, value):
         for x in self._MetaBlockParameterReference:
             x.MetaBlockConnectable = None
+        self._MetaBlockParameterReference = []
         for y in value:
-            y._MetaBlockConnectable = self
-        self._MetaBlockParameterReference = value
+            y.MetaBlockConnectable = self
 
     MetaBlockParameterReference = property(getMetaBlockParameterReference, setMetaBlockParameterReference)
 
@@ -97,9 +97,9 @@ class DynamicsMetaBlockConnectable(CoreIdentifiedObject):
     def setStandardControlBlock_MetaBlockInputReference(self, value):
         for x in self._StandardControlBlock_MetaBlockInputReference:
             x.StandardControlBlock_MetaBlockConnectable = None
+        self._StandardControlBlock_MetaBlockInputReference = []
         for y in value:
-            y._StandardControlBlock_MetaBlockConnectable = self
-        self._StandardControlBlock_MetaBlockInputReference = value
+            y.StandardControlBlock_MetaBlockConnectable = self
 
     StandardControlBlock_MetaBlockInputReference = property(getStandardControlBlock_MetaBlockInputReference, setStandardControlBlock_MetaBlockInputReference)
 
@@ -119,9 +119,9 @@ class DynamicsMetaBlockConnectable(CoreIdentifiedObject):
     def setMetaBlockStateReference(self, value):
         for x in self._MetaBlockStateReference:
             x.MetaBlockConnectable = None
+        self._MetaBlockStateReference = []
         for y in value:
-            y._MetaBlockConnectable = self
-        self._MetaBlockStateReference = value
+            y.MetaBlockConnectable = self
 
     MetaBlockStateReference = property(getMetaBlockStateReference, setMetaBlockStateReference)
 
@@ -141,9 +141,9 @@ class DynamicsMetaBlockConnectable(CoreIdentifiedObject):
     def setStandardControlBlock_MetaBlockStateReference(self, value):
         for x in self._StandardControlBlock_MetaBlockStateReference:
             x.StandardControlBlock_MetaBlockConnectable = None
+        self._StandardControlBlock_MetaBlockStateReference = []
         for y in value:
-            y._StandardControlBlock_MetaBlockConnectable = self
-        self._StandardControlBlock_MetaBlockStateReference = value
+            y.StandardControlBlock_MetaBlockConnectable = self
 
     StandardControlBlock_MetaBlockStateReference = property(getStandardControlBlock_MetaBlockStateReference, setStandardControlBlock_MetaBlockStateReference)
 
@@ -163,9 +163,9 @@ class DynamicsMetaBlockConnectable(CoreIdentifiedObject):
     def setMetaBlockInputReference(self, value):
         for x in self._MetaBlockInputReference:
             x.MetaBlockConnectable = None
+        self._MetaBlockInputReference = []
         for y in value:
-            y._MetaBlockConnectable = self
-        self._MetaBlockInputReference = value
+            y.MetaBlockConnectable = self
 
     MetaBlockInputReference = property(getMetaBlockInputReference, setMetaBlockInputReference)
 
@@ -185,9 +185,9 @@ class DynamicsMetaBlockConnectable(CoreIdentifiedObject):
     def setStandardControlBlock_MetaBlockParameterReference(self, value):
         for x in self._StandardControlBlock_MetaBlockParameterReference:
             x.StandardControlBlock_MetaBlockConnectable = None
+        self._StandardControlBlock_MetaBlockParameterReference = []
         for y in value:
-            y._StandardControlBlock_MetaBlockConnectable = self
-        self._StandardControlBlock_MetaBlockParameterReference = value
+            y.StandardControlBlock_MetaBlockConnectable = self
 
     StandardControlBlock_MetaBlockParameterReference = property(getStandardControlBlock_MetaBlockParameterReference, setStandardControlBlock_MetaBlockParameterReference)
 
@@ -207,9 +207,9 @@ class DynamicsMetaBlockConnectable(CoreIdentifiedObject):
     def setStandardControlBlock_MetaBlockOutputReference(self, value):
         for x in self._StandardControlBlock_MetaBlockOutputReference:
             x.StandardControlBlock_MetaBlockConnectable = None
+        self._StandardControlBlock_MetaBlockOutputReference = []
         for y in value:
-            y._StandardControlBlock_MetaBlockConnectable = self
-        self._StandardControlBlock_MetaBlockOutputReference = value
+            y.StandardControlBlock_MetaBlockConnectable = self
 
     StandardControlBlock_MetaBlockOutputReference = property(getStandardControlBlock_MetaBlockOutputReference, setStandardControlBlock_MetaBlockOutputReference)
 
@@ -229,9 +229,9 @@ class DynamicsMetaBlockConnectable(CoreIdentifiedObject):
     def setMetaBlockOutputReference(self, value):
         for x in self._MetaBlockOutputReference:
             x.MetaBlockConnectable = None
+        self._MetaBlockOutputReference = []
         for y in value:
-            y._MetaBlockConnectable = self
-        self._MetaBlockOutputReference = value
+            y.MetaBlockConnectable = self
 
     MetaBlockOutputReference = property(getMetaBlockOutputReference, setMetaBlockOutputReference)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnection.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnection.py
index 04522b9..fe728cd 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnection.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnection.py
@@ -59,9 +59,9 @@ class DynamicsMetaBlockConnection(CoreIdentifiedObject):
     def setMetaBlockConOutput(self, value):
         for x in self._MetaBlockConOutput:
             x.MemberOf_MetaBlockConnection = None
+        self._MetaBlockConOutput = []
         for y in value:
-            y._MemberOf_MetaBlockConnection = self
-        self._MetaBlockConOutput = value
+            y.MemberOf_MetaBlockConnection = self
 
     MetaBlockConOutput = property(getMetaBlockConOutput, setMetaBlockConOutput)
 
@@ -97,9 +97,9 @@ class DynamicsMetaBlockConnection(CoreIdentifiedObject):
     def setBlockConnection(self, value):
         for x in self._BlockConnection:
             x.MetaBlockConnection = None
+        self._BlockConnection = []
         for y in value:
-            y._MetaBlockConnection = self
-        self._BlockConnection = value
+            y.MetaBlockConnection = self
 
     BlockConnection = property(getBlockConnection, setBlockConnection)
 
@@ -119,9 +119,9 @@ class DynamicsMetaBlockConnection(CoreIdentifiedObject):
     def setMetaBlockConInput(self, value):
         for x in self._MetaBlockConInput:
             x.MemberOf_MetaBlockConnection = None
+        self._MetaBlockConInput = []
         for y in value:
-            y._MemberOf_MetaBlockConnection = self
-        self._MetaBlockConInput = value
+            y.MemberOf_MetaBlockConnection = self
 
     MetaBlockConInput = property(getMetaBlockConInput, setMetaBlockConInput)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnectivity.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnectivity.py
index 331f583..318a0e9 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnectivity.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnectivity.py
@@ -51,9 +51,9 @@ class DynamicsMetaBlockConnectivity(CoreIdentifiedObject):
     def setBlockConnectivity(self, value):
         for x in self._BlockConnectivity:
             x.MetaBlockConnectivity = None
+        self._BlockConnectivity = []
         for y in value:
-            y._MetaBlockConnectivity = self
-        self._BlockConnectivity = value
+            y.MetaBlockConnectivity = self
 
     BlockConnectivity = property(getBlockConnectivity, setBlockConnectivity)
 
@@ -73,9 +73,9 @@ class DynamicsMetaBlockConnectivity(CoreIdentifiedObject):
     def setMetaBlockConnection(self, value):
         for x in self._MetaBlockConnection:
             x.MemberOf_MetaBlockConnectivity = None
+        self._MetaBlockConnection = []
         for y in value:
-            y._MemberOf_MetaBlockConnectivity = self
-        self._MetaBlockConnection = value
+            y.MemberOf_MetaBlockConnectivity = self
 
     MetaBlockConnection = property(getMetaBlockConnection, setMetaBlockConnection)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockOutputReference.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockOutputReference.py
index fe03109..2b7251b 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockOutputReference.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockOutputReference.py
@@ -59,9 +59,9 @@ class DynamicsMetaBlockOutputReference(CoreIdentifiedObject):
     def setMetaBlockSignal(self, value):
         for x in self._MetaBlockSignal:
             x.To = None
+        self._MetaBlockSignal = []
         for y in value:
-            y._To = self
-        self._MetaBlockSignal = value
+            y.To = self
 
     MetaBlockSignal = property(getMetaBlockSignal, setMetaBlockSignal)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockParameter.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockParameter.py
index e2b7ae5..dd28d9f 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockParameter.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockParameter.py
@@ -67,9 +67,9 @@ class DynamicsMetaBlockParameter(DynamicsMetaBlockConnectable):
     def setBlockParameter(self, value):
         for x in self._BlockParameter:
             x.MetaBlockParameter = None
+        self._BlockParameter = []
         for y in value:
-            y._MetaBlockParameter = self
-        self._BlockParameter = value
+            y.MetaBlockParameter = self
 
     BlockParameter = property(getBlockParameter, setBlockParameter)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockReference.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockReference.py
index 9eddfc7..a8c4d33 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockReference.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockReference.py
@@ -74,9 +74,9 @@ class DynamicsMetaBlockReference(CoreIdentifiedObject):
     def setMetaBlockStateReference(self, value):
         for x in self._MetaBlockStateReference:
             x.MemberOf_MetaBlockReference = None
+        self._MetaBlockStateReference = []
         for y in value:
-            y._MemberOf_MetaBlockReference = self
-        self._MetaBlockStateReference = value
+            y.MemberOf_MetaBlockReference = self
 
     MetaBlockStateReference = property(getMetaBlockStateReference, setMetaBlockStateReference)
 
@@ -112,9 +112,9 @@ class DynamicsMetaBlockReference(CoreIdentifiedObject):
     def setMetaBlockInputReference(self, value):
         for x in self._MetaBlockInputReference:
             x.MemberOf_MetaBlockReference = None
+        self._MetaBlockInputReference = []
         for y in value:
-            y._MemberOf_MetaBlockReference = self
-        self._MetaBlockInputReference = value
+            y.MemberOf_MetaBlockReference = self
 
     MetaBlockInputReference = property(getMetaBlockInputReference, setMetaBlockInputReference)
 
@@ -134,9 +134,9 @@ class DynamicsMetaBlockReference(CoreIdentifiedObject):
     def setBlockParameter(self, value):
         for x in self._BlockParameter:
             x.MemberOf_MetaBlockReference = None
+        self._BlockParameter = []
         for y in value:
-            y._MemberOf_MetaBlockReference = self
-        self._BlockParameter = value
+            y.MemberOf_MetaBlockReference = self
 
     BlockParameter = property(getBlockParameter, setBlockParameter)
 
@@ -164,9 +164,9 @@ class DynamicsMetaBlockReference(CoreIdentifiedObject):
     def setMetaBlockOutputReference(self, value):
         for x in self._MetaBlockOutputReference:
             x.MemberOf_MetaBlockReference = None
+        self._MetaBlockOutputReference = []
         for y in value:
-            y._MemberOf_MetaBlockReference = self
-        self._MetaBlockOutputReference = value
+            y.MemberOf_MetaBlockReference = self
 
     MetaBlockOutputReference = property(getMetaBlockOutputReference, setMetaBlockOutputReference)
 
@@ -186,9 +186,9 @@ class DynamicsMetaBlockReference(CoreIdentifiedObject):
     def setMetaBlockParameterReference(self, value):
         for x in self._MetaBlockParameterReference:
             x.MemberOf_MetaBlockReference = None
+        self._MetaBlockParameterReference = []
         for y in value:
-            y._MemberOf_MetaBlockReference = self
-        self._MetaBlockParameterReference = value
+            y.MemberOf_MetaBlockReference = self
 
     MetaBlockParameterReference = property(getMetaBlockParameterReference, setMetaBlockParameterReference)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Informative/InfCore/InfCoreModelingAuthoritySet.py b/CIM14/ENTSOE/Dynamics/IEC61970/Informative/InfCore/InfCoreModelingAuthoritySet.py
index ec7f9c9..31d5f4f 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Informative/InfCore/InfCoreModelingAuthoritySet.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Informative/InfCore/InfCoreModelingAuthoritySet.py
@@ -47,9 +47,9 @@ class InfCoreModelingAuthoritySet(CoreIdentifiedObject):
     def setIdentifiedObjects(self, value):
         for x in self._IdentifiedObjects:
             x.ModelingAuthoritySet = None
+        self._IdentifiedObjects = []
         for y in value:
-            y._ModelingAuthoritySet = self
-        self._IdentifiedObjects = value
+            y.ModelingAuthoritySet = self
 
     IdentifiedObjects = property(getIdentifiedObjects, setIdentifiedObjects)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Wires/WiresRegulatingCondEq.py b/CIM14/ENTSOE/Dynamics/IEC61970/Wires/WiresRegulatingCondEq.py
index 1e80fc4..fb1c659 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Wires/WiresRegulatingCondEq.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Wires/WiresRegulatingCondEq.py
@@ -50,9 +50,9 @@ class WiresRegulatingCondEq(CoreConductingEquipment):
     def setControls(self, value):
         for x in self._Controls:
             x.RegulatingCondEq = None
+        self._Controls = []
         for y in value:
-            y._RegulatingCondEq = self
-        self._Controls = value
+            y.RegulatingCondEq = self
 
     Controls = property(getControls, setControls)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Wires/WiresRegulatingControl.py b/CIM14/ENTSOE/Dynamics/IEC61970/Wires/WiresRegulatingControl.py
index 1e5ed93..ac510cd 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Wires/WiresRegulatingControl.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Wires/WiresRegulatingControl.py
@@ -47,9 +47,9 @@ class WiresRegulatingControl(CorePowerSystemResource):
     def setRegulatingCondEq(self, value):
         for x in self._RegulatingCondEq:
             x.RegulatingControl = None
+        self._RegulatingCondEq = []
         for y in value:
-            y._RegulatingControl = self
-        self._RegulatingCondEq = value
+            y.RegulatingControl = self
 
     RegulatingCondEq = property(getRegulatingCondEq, setRegulatingCondEq)
 
diff --git a/CIM14/ENTSOE/Equipment/ControlArea/ControlArea.py b/CIM14/ENTSOE/Equipment/ControlArea/ControlArea.py
index e737b7c..a377a38 100644
--- a/CIM14/ENTSOE/Equipment/ControlArea/ControlArea.py
+++ b/CIM14/ENTSOE/Equipment/ControlArea/ControlArea.py
@@ -85,9 +85,9 @@ class ControlArea(PowerSystemResource):
     def setControlAreaGeneratingUnit(self, value):
         for x in self._ControlAreaGeneratingUnit:
             x.ControlArea = None
+        self._ControlAreaGeneratingUnit = []
         for y in value:
-            y._ControlArea = self
-        self._ControlAreaGeneratingUnit = value
+            y.ControlArea = self
 
     ControlAreaGeneratingUnit = property(getControlAreaGeneratingUnit, setControlAreaGeneratingUnit)
 
@@ -107,9 +107,9 @@ class ControlArea(PowerSystemResource):
     def setTieFlow(self, value):
         for x in self._TieFlow:
             x.ControlArea = None
+        self._TieFlow = []
         for y in value:
-            y._ControlArea = self
-        self._TieFlow = value
+            y.ControlArea = self
 
     TieFlow = property(getTieFlow, setTieFlow)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/BaseVoltage.py b/CIM14/ENTSOE/Equipment/Core/BaseVoltage.py
index 1a7665b..f479955 100644
--- a/CIM14/ENTSOE/Equipment/Core/BaseVoltage.py
+++ b/CIM14/ENTSOE/Equipment/Core/BaseVoltage.py
@@ -57,9 +57,9 @@ class BaseVoltage(IdentifiedObject):
     def setConductingEquipment(self, value):
         for x in self._ConductingEquipment:
             x.BaseVoltage = None
+        self._ConductingEquipment = []
         for y in value:
-            y._BaseVoltage = self
-        self._ConductingEquipment = value
+            y.BaseVoltage = self
 
     ConductingEquipment = property(getConductingEquipment, setConductingEquipment)
 
@@ -79,9 +79,9 @@ class BaseVoltage(IdentifiedObject):
     def setVoltageLevel(self, value):
         for x in self._VoltageLevel:
             x.BaseVoltage = None
+        self._VoltageLevel = []
         for y in value:
-            y._BaseVoltage = self
-        self._VoltageLevel = value
+            y.BaseVoltage = self
 
     VoltageLevel = property(getVoltageLevel, setVoltageLevel)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/ConductingEquipment.py b/CIM14/ENTSOE/Equipment/Core/ConductingEquipment.py
index 5b9068a..c7549b1 100644
--- a/CIM14/ENTSOE/Equipment/Core/ConductingEquipment.py
+++ b/CIM14/ENTSOE/Equipment/Core/ConductingEquipment.py
@@ -53,9 +53,9 @@ class ConductingEquipment(Equipment):
     def setTerminals(self, value):
         for x in self._Terminals:
             x.ConductingEquipment = None
+        self._Terminals = []
         for y in value:
-            y._ConductingEquipment = self
-        self._Terminals = value
+            y.ConductingEquipment = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/ConnectivityNode.py b/CIM14/ENTSOE/Equipment/Core/ConnectivityNode.py
index 297a15f..4bfcae3 100644
--- a/CIM14/ENTSOE/Equipment/Core/ConnectivityNode.py
+++ b/CIM14/ENTSOE/Equipment/Core/ConnectivityNode.py
@@ -49,9 +49,9 @@ class ConnectivityNode(IdentifiedObject):
     def setTerminals(self, value):
         for x in self._Terminals:
             x.ConnectivityNode = None
+        self._Terminals = []
         for y in value:
-            y._ConnectivityNode = self
-        self._Terminals = value
+            y.ConnectivityNode = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/Curve.py b/CIM14/ENTSOE/Equipment/Core/Curve.py
index a3d15d4..65646fd 100644
--- a/CIM14/ENTSOE/Equipment/Core/Curve.py
+++ b/CIM14/ENTSOE/Equipment/Core/Curve.py
@@ -61,9 +61,9 @@ class Curve(IdentifiedObject):
     def setCurveDatas(self, value):
         for x in self._CurveDatas:
             x.Curve = None
+        self._CurveDatas = []
         for y in value:
-            y._Curve = self
-        self._CurveDatas = value
+            y.Curve = self
 
     CurveDatas = property(getCurveDatas, setCurveDatas)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/Equipment.py b/CIM14/ENTSOE/Equipment/Core/Equipment.py
index 589c3cf..1a972bf 100644
--- a/CIM14/ENTSOE/Equipment/Core/Equipment.py
+++ b/CIM14/ENTSOE/Equipment/Core/Equipment.py
@@ -57,9 +57,9 @@ class Equipment(PowerSystemResource):
     def setOperationalLimitSet(self, value):
         for x in self._OperationalLimitSet:
             x.Equipment = None
+        self._OperationalLimitSet = []
         for y in value:
-            y._Equipment = self
-        self._OperationalLimitSet = value
+            y.Equipment = self
 
     OperationalLimitSet = property(getOperationalLimitSet, setOperationalLimitSet)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/EquipmentContainer.py b/CIM14/ENTSOE/Equipment/Core/EquipmentContainer.py
index a07fab4..8b2a600 100644
--- a/CIM14/ENTSOE/Equipment/Core/EquipmentContainer.py
+++ b/CIM14/ENTSOE/Equipment/Core/EquipmentContainer.py
@@ -49,9 +49,9 @@ class EquipmentContainer(ConnectivityNodeContainer):
     def setEquipments(self, value):
         for x in self._Equipments:
             x.EquipmentContainer = None
+        self._Equipments = []
         for y in value:
-            y._EquipmentContainer = self
-        self._Equipments = value
+            y.EquipmentContainer = self
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/GeographicalRegion.py b/CIM14/ENTSOE/Equipment/Core/GeographicalRegion.py
index 58ed6b9..ee5bdf9 100644
--- a/CIM14/ENTSOE/Equipment/Core/GeographicalRegion.py
+++ b/CIM14/ENTSOE/Equipment/Core/GeographicalRegion.py
@@ -49,9 +49,9 @@ class GeographicalRegion(IdentifiedObject):
     def setRegions(self, value):
         for x in self._Regions:
             x.Region = None
+        self._Regions = []
         for y in value:
-            y._Region = self
-        self._Regions = value
+            y.Region = self
 
     Regions = property(getRegions, setRegions)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/PowerSystemResource.py b/CIM14/ENTSOE/Equipment/Core/PowerSystemResource.py
index 7d0ec6a..961cff7 100644
--- a/CIM14/ENTSOE/Equipment/Core/PowerSystemResource.py
+++ b/CIM14/ENTSOE/Equipment/Core/PowerSystemResource.py
@@ -49,9 +49,9 @@ class PowerSystemResource(IdentifiedObject):
     def setMeasurements(self, value):
         for x in self._Measurements:
             x.PowerSystemResource = None
+        self._Measurements = []
         for y in value:
-            y._PowerSystemResource = self
-        self._Measurements = value
+            y.PowerSystemResource = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/SubGeographicalRegion.py b/CIM14/ENTSOE/Equipment/Core/SubGeographicalRegion.py
index 6117976..2b5dbff 100644
--- a/CIM14/ENTSOE/Equipment/Core/SubGeographicalRegion.py
+++ b/CIM14/ENTSOE/Equipment/Core/SubGeographicalRegion.py
@@ -74,9 +74,9 @@ class SubGeographicalRegion(IdentifiedObject):
     def setLines(self, value):
         for x in self._Lines:
             x.Region = None
+        self._Lines = []
         for y in value:
-            y._Region = self
-        self._Lines = value
+            y.Region = self
 
     Lines = property(getLines, setLines)
 
@@ -96,9 +96,9 @@ class SubGeographicalRegion(IdentifiedObject):
     def setSubstations(self, value):
         for x in self._Substations:
             x.Region = None
+        self._Substations = []
         for y in value:
-            y._Region = self
-        self._Substations = value
+            y.Region = self
 
     Substations = property(getSubstations, setSubstations)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/Substation.py b/CIM14/ENTSOE/Equipment/Core/Substation.py
index ce5f7ef..a2db1e5 100644
--- a/CIM14/ENTSOE/Equipment/Core/Substation.py
+++ b/CIM14/ENTSOE/Equipment/Core/Substation.py
@@ -70,9 +70,9 @@ class Substation(EquipmentContainer):
     def setVoltageLevels(self, value):
         for x in self._VoltageLevels:
             x.Substation = None
+        self._VoltageLevels = []
         for y in value:
-            y._Substation = self
-        self._VoltageLevels = value
+            y.Substation = self
 
     VoltageLevels = property(getVoltageLevels, setVoltageLevels)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/Terminal.py b/CIM14/ENTSOE/Equipment/Core/Terminal.py
index ea7a2ad..a8c7d04 100644
--- a/CIM14/ENTSOE/Equipment/Core/Terminal.py
+++ b/CIM14/ENTSOE/Equipment/Core/Terminal.py
@@ -81,9 +81,9 @@ class Terminal(IdentifiedObject):
     def setOperationalLimitSet(self, value):
         for x in self._OperationalLimitSet:
             x.Terminal = None
+        self._OperationalLimitSet = []
         for y in value:
-            y._Terminal = self
-        self._OperationalLimitSet = value
+            y.Terminal = self
 
     OperationalLimitSet = property(getOperationalLimitSet, setOperationalLimitSet)
 
@@ -120,9 +120,9 @@ class Terminal(IdentifiedObject):
     def setHasFirst_MutualCoupling(self, value):
         for x in self._HasFirst_MutualCoupling:
             x.First_Terminal = None
+        self._HasFirst_MutualCoupling = []
         for y in value:
-            y._First_Terminal = self
-        self._HasFirst_MutualCoupling = value
+            y.First_Terminal = self
 
     HasFirst_MutualCoupling = property(getHasFirst_MutualCoupling, setHasFirst_MutualCoupling)
 
@@ -142,9 +142,9 @@ class Terminal(IdentifiedObject):
     def setMeasurements(self, value):
         for x in self._Measurements:
             x.Terminal = None
+        self._Measurements = []
         for y in value:
-            y._Terminal = self
-        self._Measurements = value
+            y.Terminal = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
@@ -181,9 +181,9 @@ class Terminal(IdentifiedObject):
     def setRegulatingControl(self, value):
         for x in self._RegulatingControl:
             x.Terminal = None
+        self._RegulatingControl = []
         for y in value:
-            y._Terminal = self
-        self._RegulatingControl = value
+            y.Terminal = self
 
     RegulatingControl = property(getRegulatingControl, setRegulatingControl)
 
@@ -203,9 +203,9 @@ class Terminal(IdentifiedObject):
     def setTieFlow(self, value):
         for x in self._TieFlow:
             x.Terminal = None
+        self._TieFlow = []
         for y in value:
-            y._Terminal = self
-        self._TieFlow = value
+            y.Terminal = self
 
     TieFlow = property(getTieFlow, setTieFlow)
 
@@ -225,9 +225,9 @@ class Terminal(IdentifiedObject):
     def setHasSecond_MutualCoupling(self, value):
         for x in self._HasSecond_MutualCoupling:
             x.Second_Terminal = None
+        self._HasSecond_MutualCoupling = []
         for y in value:
-            y._Second_Terminal = self
-        self._HasSecond_MutualCoupling = value
+            y.Second_Terminal = self
 
     HasSecond_MutualCoupling = property(getHasSecond_MutualCoupling, setHasSecond_MutualCoupling)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/Unit.py b/CIM14/ENTSOE/Equipment/Core/Unit.py
index a99fea5..d3dcab3 100644
--- a/CIM14/ENTSOE/Equipment/Core/Unit.py
+++ b/CIM14/ENTSOE/Equipment/Core/Unit.py
@@ -49,9 +49,9 @@ class Unit(IdentifiedObject):
     def setMeasurements(self, value):
         for x in self._Measurements:
             x.Unit = None
+        self._Measurements = []
         for y in value:
-            y._Unit = self
-        self._Measurements = value
+            y.Unit = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM14/ENTSOE/Equipment/Equivalents/EquivalentNetwork.py b/CIM14/ENTSOE/Equipment/Equivalents/EquivalentNetwork.py
index 11a1240..fa0e096 100644
--- a/CIM14/ENTSOE/Equipment/Equivalents/EquivalentNetwork.py
+++ b/CIM14/ENTSOE/Equipment/Equivalents/EquivalentNetwork.py
@@ -49,9 +49,9 @@ class EquivalentNetwork(ConnectivityNodeContainer):
     def setEquivalentEquipments(self, value):
         for x in self._EquivalentEquipments:
             x.EquivalentNetwork = None
+        self._EquivalentEquipments = []
         for y in value:
-            y._EquivalentNetwork = self
-        self._EquivalentEquipments = value
+            y.EquivalentNetwork = self
 
     EquivalentEquipments = property(getEquivalentEquipments, setEquivalentEquipments)
 
diff --git a/CIM14/ENTSOE/Equipment/Generation/Production/GeneratingUnit.py b/CIM14/ENTSOE/Equipment/Generation/Production/GeneratingUnit.py
index 730b711..863a0f1 100644
--- a/CIM14/ENTSOE/Equipment/Generation/Production/GeneratingUnit.py
+++ b/CIM14/ENTSOE/Equipment/Generation/Production/GeneratingUnit.py
@@ -113,9 +113,9 @@ class GeneratingUnit(Equipment):
     def setSynchronousMachines(self, value):
         for x in self._SynchronousMachines:
             x.GeneratingUnit = None
+        self._SynchronousMachines = []
         for y in value:
-            y._GeneratingUnit = self
-        self._SynchronousMachines = value
+            y.GeneratingUnit = self
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
@@ -135,9 +135,9 @@ class GeneratingUnit(Equipment):
     def setControlAreaGeneratingUnit(self, value):
         for x in self._ControlAreaGeneratingUnit:
             x.GeneratingUnit = None
+        self._ControlAreaGeneratingUnit = []
         for y in value:
-            y._GeneratingUnit = self
-        self._ControlAreaGeneratingUnit = value
+            y.GeneratingUnit = self
 
     ControlAreaGeneratingUnit = property(getControlAreaGeneratingUnit, setControlAreaGeneratingUnit)
 
diff --git a/CIM14/ENTSOE/Equipment/LoadModel/ConformLoadGroup.py b/CIM14/ENTSOE/Equipment/LoadModel/ConformLoadGroup.py
index 5163d41..e5ec92e 100644
--- a/CIM14/ENTSOE/Equipment/LoadModel/ConformLoadGroup.py
+++ b/CIM14/ENTSOE/Equipment/LoadModel/ConformLoadGroup.py
@@ -49,9 +49,9 @@ class ConformLoadGroup(LoadGroup):
     def setEnergyConsumers(self, value):
         for x in self._EnergyConsumers:
             x.LoadGroup = None
+        self._EnergyConsumers = []
         for y in value:
-            y._LoadGroup = self
-        self._EnergyConsumers = value
+            y.LoadGroup = self
 
     EnergyConsumers = property(getEnergyConsumers, setEnergyConsumers)
 
diff --git a/CIM14/ENTSOE/Equipment/LoadModel/DayType.py b/CIM14/ENTSOE/Equipment/LoadModel/DayType.py
index 83b160c..ad4c294 100644
--- a/CIM14/ENTSOE/Equipment/LoadModel/DayType.py
+++ b/CIM14/ENTSOE/Equipment/LoadModel/DayType.py
@@ -49,9 +49,9 @@ class DayType(IdentifiedObject):
     def setSeasonDayTypeSchedules(self, value):
         for x in self._SeasonDayTypeSchedules:
             x.DayType = None
+        self._SeasonDayTypeSchedules = []
         for y in value:
-            y._DayType = self
-        self._SeasonDayTypeSchedules = value
+            y.DayType = self
 
     SeasonDayTypeSchedules = property(getSeasonDayTypeSchedules, setSeasonDayTypeSchedules)
 
diff --git a/CIM14/ENTSOE/Equipment/LoadModel/LoadResponseCharacteristic.py b/CIM14/ENTSOE/Equipment/LoadModel/LoadResponseCharacteristic.py
index f2dc851..6c56548 100644
--- a/CIM14/ENTSOE/Equipment/LoadModel/LoadResponseCharacteristic.py
+++ b/CIM14/ENTSOE/Equipment/LoadModel/LoadResponseCharacteristic.py
@@ -93,9 +93,9 @@ class LoadResponseCharacteristic(IdentifiedObject):
     def setEnergyConsumer(self, value):
         for x in self._EnergyConsumer:
             x.LoadResponse = None
+        self._EnergyConsumer = []
         for y in value:
-            y._LoadResponse = self
-        self._EnergyConsumer = value
+            y.LoadResponse = self
 
     EnergyConsumer = property(getEnergyConsumer, setEnergyConsumer)
 
diff --git a/CIM14/ENTSOE/Equipment/LoadModel/NonConformLoadGroup.py b/CIM14/ENTSOE/Equipment/LoadModel/NonConformLoadGroup.py
index 4393ea9..febe4f6 100644
--- a/CIM14/ENTSOE/Equipment/LoadModel/NonConformLoadGroup.py
+++ b/CIM14/ENTSOE/Equipment/LoadModel/NonConformLoadGroup.py
@@ -49,9 +49,9 @@ class NonConformLoadGroup(LoadGroup):
     def setEnergyConsumers(self, value):
         for x in self._EnergyConsumers:
             x.LoadGroup = None
+        self._EnergyConsumers = []
         for y in value:
-            y._LoadGroup = self
-        self._EnergyConsumers = value
+            y.LoadGroup = self
 
     EnergyConsumers = property(getEnergyConsumers, setEnergyConsumers)
 
diff --git a/CIM14/ENTSOE/Equipment/LoadModel/Season.py b/CIM14/ENTSOE/Equipment/LoadModel/Season.py
index 0bfcf32..03cd49a 100644
--- a/CIM14/ENTSOE/Equipment/LoadModel/Season.py
+++ b/CIM14/ENTSOE/Equipment/LoadModel/Season.py
@@ -49,9 +49,9 @@ class Season(Element):
     def setSeasonDayTypeSchedules(self, value):
         for x in self._SeasonDayTypeSchedules:
             x.Season = None
+        self._SeasonDayTypeSchedules = []
         for y in value:
-            y._Season = self
-        self._SeasonDayTypeSchedules = value
+            y.Season = self
 
     SeasonDayTypeSchedules = property(getSeasonDayTypeSchedules, setSeasonDayTypeSchedules)
 
diff --git a/CIM14/ENTSOE/Equipment/LoadModel/SubLoadArea.py b/CIM14/ENTSOE/Equipment/LoadModel/SubLoadArea.py
index 33544c5..4322310 100644
--- a/CIM14/ENTSOE/Equipment/LoadModel/SubLoadArea.py
+++ b/CIM14/ENTSOE/Equipment/LoadModel/SubLoadArea.py
@@ -49,9 +49,9 @@ class SubLoadArea(EnergyArea):
     def setLoadGroups(self, value):
         for x in self._LoadGroups:
             x.SubLoadArea = None
+        self._LoadGroups = []
         for y in value:
-            y._SubLoadArea = self
-        self._LoadGroups = value
+            y.SubLoadArea = self
 
     LoadGroups = property(getLoadGroups, setLoadGroups)
 
diff --git a/CIM14/ENTSOE/Equipment/Meas/MeasurementValueSource.py b/CIM14/ENTSOE/Equipment/Meas/MeasurementValueSource.py
index 257b7e4..8b4e592 100644
--- a/CIM14/ENTSOE/Equipment/Meas/MeasurementValueSource.py
+++ b/CIM14/ENTSOE/Equipment/Meas/MeasurementValueSource.py
@@ -49,9 +49,9 @@ class MeasurementValueSource(IdentifiedObject):
     def setMeasurementValues(self, value):
         for x in self._MeasurementValues:
             x.MeasurementValueSource = None
+        self._MeasurementValues = []
         for y in value:
-            y._MeasurementValueSource = self
-        self._MeasurementValues = value
+            y.MeasurementValueSource = self
 
     MeasurementValues = property(getMeasurementValues, setMeasurementValues)
 
diff --git a/CIM14/ENTSOE/Equipment/OperationalLimits/OperationalLimitSet.py b/CIM14/ENTSOE/Equipment/OperationalLimits/OperationalLimitSet.py
index 064e9b2..666851b 100644
--- a/CIM14/ENTSOE/Equipment/OperationalLimits/OperationalLimitSet.py
+++ b/CIM14/ENTSOE/Equipment/OperationalLimits/OperationalLimitSet.py
@@ -91,9 +91,9 @@ class OperationalLimitSet(IdentifiedObject):
     def setOperationalLimitValue(self, value):
         for x in self._OperationalLimitValue:
             x.OperationalLimitSet = None
+        self._OperationalLimitValue = []
         for y in value:
-            y._OperationalLimitSet = self
-        self._OperationalLimitValue = value
+            y.OperationalLimitSet = self
 
     OperationalLimitValue = property(getOperationalLimitValue, setOperationalLimitValue)
 
diff --git a/CIM14/ENTSOE/Equipment/OperationalLimits/OperationalLimitType.py b/CIM14/ENTSOE/Equipment/OperationalLimits/OperationalLimitType.py
index f68f128..9bc70d3 100644
--- a/CIM14/ENTSOE/Equipment/OperationalLimits/OperationalLimitType.py
+++ b/CIM14/ENTSOE/Equipment/OperationalLimits/OperationalLimitType.py
@@ -57,9 +57,9 @@ class OperationalLimitType(IdentifiedObject):
     def setOperationalLimit(self, value):
         for x in self._OperationalLimit:
             x.OperationalLimitType = None
+        self._OperationalLimit = []
         for y in value:
-            y._OperationalLimitType = self
-        self._OperationalLimit = value
+            y.OperationalLimitType = self
 
     OperationalLimit = property(getOperationalLimit, setOperationalLimit)
 
diff --git a/CIM14/ENTSOE/Equipment/Wires/PowerTransformer.py b/CIM14/ENTSOE/Equipment/Wires/PowerTransformer.py
index a485028..478545c 100644
--- a/CIM14/ENTSOE/Equipment/Wires/PowerTransformer.py
+++ b/CIM14/ENTSOE/Equipment/Wires/PowerTransformer.py
@@ -49,9 +49,9 @@ class PowerTransformer(Equipment):
     def setTransformerWindings(self, value):
         for x in self._TransformerWindings:
             x.PowerTransformer = None
+        self._TransformerWindings = []
         for y in value:
-            y._PowerTransformer = self
-        self._TransformerWindings = value
+            y.PowerTransformer = self
 
     TransformerWindings = property(getTransformerWindings, setTransformerWindings)
 
diff --git a/CIM14/ENTSOE/Equipment/Wires/ReactiveCapabilityCurve.py b/CIM14/ENTSOE/Equipment/Wires/ReactiveCapabilityCurve.py
index 0ed7a80..6e764a5 100644
--- a/CIM14/ENTSOE/Equipment/Wires/ReactiveCapabilityCurve.py
+++ b/CIM14/ENTSOE/Equipment/Wires/ReactiveCapabilityCurve.py
@@ -53,9 +53,9 @@ class ReactiveCapabilityCurve(Curve):
     def setInitiallyUsedBySynchronousMachines(self, value):
         for x in self._InitiallyUsedBySynchronousMachines:
             x.InitialReactiveCapabilityCurve = None
+        self._InitiallyUsedBySynchronousMachines = []
         for y in value:
-            y._InitialReactiveCapabilityCurve = self
-        self._InitiallyUsedBySynchronousMachines = value
+            y.InitialReactiveCapabilityCurve = self
 
     InitiallyUsedBySynchronousMachines = property(getInitiallyUsedBySynchronousMachines, setInitiallyUsedBySynchronousMachines)
 
diff --git a/CIM14/ENTSOE/Equipment/Wires/RegulatingControl.py b/CIM14/ENTSOE/Equipment/Wires/RegulatingControl.py
index 4f6b884..3d40cbf 100644
--- a/CIM14/ENTSOE/Equipment/Wires/RegulatingControl.py
+++ b/CIM14/ENTSOE/Equipment/Wires/RegulatingControl.py
@@ -90,9 +90,9 @@ class RegulatingControl(PowerSystemResource):
     def setRegulatingCondEq(self, value):
         for x in self._RegulatingCondEq:
             x.RegulatingControl = None
+        self._RegulatingCondEq = []
         for y in value:
-            y._RegulatingControl = self
-        self._RegulatingCondEq = value
+            y.RegulatingControl = self
 
     RegulatingCondEq = property(getRegulatingCondEq, setRegulatingCondEq)
 
@@ -112,9 +112,9 @@ class RegulatingControl(PowerSystemResource):
     def setTapChanger(self, value):
         for x in self._TapChanger:
             x.RegulatingControl = None
+        self._TapChanger = []
         for y in value:
-            y._RegulatingControl = self
-        self._TapChanger = value
+            y.RegulatingControl = self
 
     TapChanger = property(getTapChanger, setTapChanger)
 
diff --git a/CIM14/ENTSOE/Topology/Core/BaseVoltage.py b/CIM14/ENTSOE/Topology/Core/BaseVoltage.py
index 46cba6c..e6ceb56 100644
--- a/CIM14/ENTSOE/Topology/Core/BaseVoltage.py
+++ b/CIM14/ENTSOE/Topology/Core/BaseVoltage.py
@@ -49,9 +49,9 @@ class BaseVoltage(IdentifiedObject):
     def setTopologicalNode(self, value):
         for x in self._TopologicalNode:
             x.BaseVoltage = None
+        self._TopologicalNode = []
         for y in value:
-            y._BaseVoltage = self
-        self._TopologicalNode = value
+            y.BaseVoltage = self
 
     TopologicalNode = property(getTopologicalNode, setTopologicalNode)
 
diff --git a/CIM14/ENTSOE/Topology/Core/ConnectivityNodeContainer.py b/CIM14/ENTSOE/Topology/Core/ConnectivityNodeContainer.py
index 2b809a0..6c6cd6e 100644
--- a/CIM14/ENTSOE/Topology/Core/ConnectivityNodeContainer.py
+++ b/CIM14/ENTSOE/Topology/Core/ConnectivityNodeContainer.py
@@ -49,9 +49,9 @@ class ConnectivityNodeContainer(IdentifiedObject):
     def setTopologicalNode(self, value):
         for x in self._TopologicalNode:
             x.ConnectivityNodeContainer = None
+        self._TopologicalNode = []
         for y in value:
-            y._ConnectivityNodeContainer = self
-        self._TopologicalNode = value
+            y.ConnectivityNodeContainer = self
 
     TopologicalNode = property(getTopologicalNode, setTopologicalNode)
 
diff --git a/CIM14/ENTSOE/Topology/Topology/TopologicalNode.py b/CIM14/ENTSOE/Topology/Topology/TopologicalNode.py
index 0a93db3..d3e7272 100644
--- a/CIM14/ENTSOE/Topology/Topology/TopologicalNode.py
+++ b/CIM14/ENTSOE/Topology/Topology/TopologicalNode.py
@@ -91,9 +91,9 @@ class TopologicalNode(IdentifiedObject):
     def setTerminal(self, value):
         for x in self._Terminal:
             x.TopologicalNode = None
+        self._Terminal = []
         for y in value:
-            y._TopologicalNode = self
-        self._Terminal = value
+            y.TopologicalNode = self
 
     Terminal = property(getTerminal, setTerminal)
 
diff --git a/CIM14/IEC61968/AssetModels/ConductorInfo.py b/CIM14/IEC61968/AssetModels/ConductorInfo.py
index 635e9ab..94aafea 100644
--- a/CIM14/IEC61968/AssetModels/ConductorInfo.py
+++ b/CIM14/IEC61968/AssetModels/ConductorInfo.py
@@ -73,9 +73,9 @@ class ConductorInfo(IdentifiedObject):
     def setConductorSegments(self, value):
         for x in self._ConductorSegments:
             x.ConductorInfo = None
+        self._ConductorSegments = []
         for y in value:
-            y._ConductorInfo = self
-        self._ConductorSegments = value
+            y.ConductorInfo = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
@@ -95,9 +95,9 @@ class ConductorInfo(IdentifiedObject):
     def setWireArrangements(self, value):
         for x in self._WireArrangements:
             x.ConductorInfo = None
+        self._WireArrangements = []
         for y in value:
-            y._ConductorInfo = self
-        self._WireArrangements = value
+            y.ConductorInfo = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
diff --git a/CIM14/IEC61968/AssetModels/EndDeviceModel.py b/CIM14/IEC61968/AssetModels/EndDeviceModel.py
index 3cf2bb4..a6d0f29 100644
--- a/CIM14/IEC61968/AssetModels/EndDeviceModel.py
+++ b/CIM14/IEC61968/AssetModels/EndDeviceModel.py
@@ -49,9 +49,9 @@ class EndDeviceModel(AssetModel):
     def setEndDeviceAssets(self, value):
         for x in self._EndDeviceAssets:
             x.EndDeviceModel = None
+        self._EndDeviceAssets = []
         for y in value:
-            y._EndDeviceModel = self
-        self._EndDeviceAssets = value
+            y.EndDeviceModel = self
 
     EndDeviceAssets = property(getEndDeviceAssets, setEndDeviceAssets)
 
diff --git a/CIM14/IEC61968/AssetModels/TransformerInfo.py b/CIM14/IEC61968/AssetModels/TransformerInfo.py
index e77cdca..0b0f2e0 100644
--- a/CIM14/IEC61968/AssetModels/TransformerInfo.py
+++ b/CIM14/IEC61968/AssetModels/TransformerInfo.py
@@ -53,9 +53,9 @@ class TransformerInfo(IdentifiedObject):
     def setWindingInfos(self, value):
         for x in self._WindingInfos:
             x.TransformerInfo = None
+        self._WindingInfos = []
         for y in value:
-            y._TransformerInfo = self
-        self._WindingInfos = value
+            y.TransformerInfo = self
 
     WindingInfos = property(getWindingInfos, setWindingInfos)
 
@@ -75,9 +75,9 @@ class TransformerInfo(IdentifiedObject):
     def setTransformers(self, value):
         for x in self._Transformers:
             x.TransformerInfo = None
+        self._Transformers = []
         for y in value:
-            y._TransformerInfo = self
-        self._Transformers = value
+            y.TransformerInfo = self
 
     Transformers = property(getTransformers, setTransformers)
 
diff --git a/CIM14/IEC61968/AssetModels/WindingInfo.py b/CIM14/IEC61968/AssetModels/WindingInfo.py
index a55dcaa..96cf98d 100644
--- a/CIM14/IEC61968/AssetModels/WindingInfo.py
+++ b/CIM14/IEC61968/AssetModels/WindingInfo.py
@@ -97,9 +97,9 @@ class WindingInfo(IdentifiedObject):
     def setWindings(self, value):
         for x in self._Windings:
             x.WindingInfo = None
+        self._Windings = []
         for y in value:
-            y._WindingInfo = self
-        self._Windings = value
+            y.WindingInfo = self
 
     Windings = property(getWindings, setWindings)
 
@@ -119,9 +119,9 @@ class WindingInfo(IdentifiedObject):
     def setWindingTests(self, value):
         for x in self._WindingTests:
             x.FromWinding = None
+        self._WindingTests = []
         for y in value:
-            y._FromWinding = self
-        self._WindingTests = value
+            y.FromWinding = self
 
     WindingTests = property(getWindingTests, setWindingTests)
 
@@ -158,9 +158,9 @@ class WindingInfo(IdentifiedObject):
     def setToWindingSpecs(self, value):
         for x in self._ToWindingSpecs:
             x.ToWinding = None
+        self._ToWindingSpecs = []
         for y in value:
-            y._ToWinding = self
-        self._ToWindingSpecs = value
+            y.ToWinding = self
 
     ToWindingSpecs = property(getToWindingSpecs, setToWindingSpecs)
 
diff --git a/CIM14/IEC61968/AssetModels/WireType.py b/CIM14/IEC61968/AssetModels/WireType.py
index d307332..3db4ac1 100644
--- a/CIM14/IEC61968/AssetModels/WireType.py
+++ b/CIM14/IEC61968/AssetModels/WireType.py
@@ -101,9 +101,9 @@ class WireType(IdentifiedObject):
     def setWireArrangements(self, value):
         for x in self._WireArrangements:
             x.WireType = None
+        self._WireArrangements = []
         for y in value:
-            y._WireType = self
-        self._WireArrangements = value
+            y.WireType = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
@@ -123,9 +123,9 @@ class WireType(IdentifiedObject):
     def setConcentricNeutralCableInfos(self, value):
         for x in self._ConcentricNeutralCableInfos:
             x.WireType = None
+        self._ConcentricNeutralCableInfos = []
         for y in value:
-            y._WireType = self
-        self._ConcentricNeutralCableInfos = value
+            y.WireType = self
 
     ConcentricNeutralCableInfos = property(getConcentricNeutralCableInfos, setConcentricNeutralCableInfos)
 
diff --git a/CIM14/IEC61968/Assets/Asset.py b/CIM14/IEC61968/Assets/Asset.py
index 0e0e21b..c93eade 100644
--- a/CIM14/IEC61968/Assets/Asset.py
+++ b/CIM14/IEC61968/Assets/Asset.py
@@ -246,9 +246,9 @@ class Asset(IdentifiedObject):
     def setAssetFunctions(self, value):
         for x in self._AssetFunctions:
             x.Asset = None
+        self._AssetFunctions = []
         for y in value:
-            y._Asset = self
-        self._AssetFunctions = value
+            y.Asset = self
 
     AssetFunctions = property(getAssetFunctions, setAssetFunctions)
 
@@ -267,9 +267,9 @@ class Asset(IdentifiedObject):
     def setMeasurements(self, value):
         for x in self._Measurements:
             x.Asset = None
+        self._Measurements = []
         for y in value:
-            y._Asset = self
-        self._Measurements = value
+            y.Asset = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM14/IEC61968/Assets/AssetContainer.py b/CIM14/IEC61968/Assets/AssetContainer.py
index 309cc06..1c058dd 100644
--- a/CIM14/IEC61968/Assets/AssetContainer.py
+++ b/CIM14/IEC61968/Assets/AssetContainer.py
@@ -53,9 +53,9 @@ class AssetContainer(Asset):
     def setSeals(self, value):
         for x in self._Seals:
             x.AssetContainer = None
+        self._Seals = []
         for y in value:
-            y._AssetContainer = self
-        self._Seals = value
+            y.AssetContainer = self
 
     Seals = property(getSeals, setSeals)
 
@@ -74,9 +74,9 @@ class AssetContainer(Asset):
     def setAssets(self, value):
         for x in self._Assets:
             x.AssetContainer = None
+        self._Assets = []
         for y in value:
-            y._AssetContainer = self
-        self._Assets = value
+            y.AssetContainer = self
 
     Assets = property(getAssets, setAssets)
 
diff --git a/CIM14/IEC61968/Common/CoordinateSystem.py b/CIM14/IEC61968/Common/CoordinateSystem.py
index dbe7024..2e619f4 100644
--- a/CIM14/IEC61968/Common/CoordinateSystem.py
+++ b/CIM14/IEC61968/Common/CoordinateSystem.py
@@ -74,9 +74,9 @@ class CoordinateSystem(Element):
     def setPositionPoints(self, value):
         for x in self._PositionPoints:
             x.CoordinateSystem = None
+        self._PositionPoints = []
         for y in value:
-            y._CoordinateSystem = self
-        self._PositionPoints = value
+            y.CoordinateSystem = self
 
     PositionPoints = property(getPositionPoints, setPositionPoints)
 
diff --git a/CIM14/IEC61968/Common/Location.py b/CIM14/IEC61968/Common/Location.py
index 512267e..25ab696 100644
--- a/CIM14/IEC61968/Common/Location.py
+++ b/CIM14/IEC61968/Common/Location.py
@@ -99,9 +99,9 @@ class Location(IdentifiedObject):
     def setPositionPoints(self, value):
         for x in self._PositionPoints:
             x.Location = None
+        self._PositionPoints = []
         for y in value:
-            y._Location = self
-        self._PositionPoints = value
+            y.Location = self
 
     PositionPoints = property(getPositionPoints, setPositionPoints)
 
@@ -121,9 +121,9 @@ class Location(IdentifiedObject):
     def setPowerSystemResources(self, value):
         for x in self._PowerSystemResources:
             x.Location = None
+        self._PowerSystemResources = []
         for y in value:
-            y._Location = self
-        self._PowerSystemResources = value
+            y.Location = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
@@ -143,9 +143,9 @@ class Location(IdentifiedObject):
     def setCoordinateSystems(self, value):
         for x in self._CoordinateSystems:
             x.Location = None
+        self._CoordinateSystems = []
         for y in value:
-            y._Location = self
-        self._CoordinateSystems = value
+            y.Location = self
 
     CoordinateSystems = property(getCoordinateSystems, setCoordinateSystems)
 
@@ -198,9 +198,9 @@ class Location(IdentifiedObject):
     def setAssets(self, value):
         for x in self._Assets:
             x.Location = None
+        self._Assets = []
         for y in value:
-            y._Location = self
-        self._Assets = value
+            y.Location = self
 
     Assets = property(getAssets, setAssets)
 
diff --git a/CIM14/IEC61968/Common/TimeSchedule.py b/CIM14/IEC61968/Common/TimeSchedule.py
index 40a37a4..1652682 100644
--- a/CIM14/IEC61968/Common/TimeSchedule.py
+++ b/CIM14/IEC61968/Common/TimeSchedule.py
@@ -68,9 +68,9 @@ class TimeSchedule(Document):
     def setTimePoints(self, value):
         for x in self._TimePoints:
             x.TimeSchedule = None
+        self._TimePoints = []
         for y in value:
-            y._TimeSchedule = self
-        self._TimePoints = value
+            y.TimeSchedule = self
 
     TimePoints = property(getTimePoints, setTimePoints)
 
diff --git a/CIM14/IEC61968/Customers/Customer.py b/CIM14/IEC61968/Customers/Customer.py
index d4e494a..70d763b 100644
--- a/CIM14/IEC61968/Customers/Customer.py
+++ b/CIM14/IEC61968/Customers/Customer.py
@@ -110,9 +110,9 @@ class Customer(Organisation):
     def setCustomerAgreements(self, value):
         for x in self._CustomerAgreements:
             x.Customer = None
+        self._CustomerAgreements = []
         for y in value:
-            y._Customer = self
-        self._CustomerAgreements = value
+            y.Customer = self
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
@@ -132,9 +132,9 @@ class Customer(Organisation):
     def setEndDeviceAssets(self, value):
         for x in self._EndDeviceAssets:
             x.Customer = None
+        self._EndDeviceAssets = []
         for y in value:
-            y._Customer = self
-        self._EndDeviceAssets = value
+            y.Customer = self
 
     EndDeviceAssets = property(getEndDeviceAssets, setEndDeviceAssets)
 
diff --git a/CIM14/IEC61968/Customers/CustomerAccount.py b/CIM14/IEC61968/Customers/CustomerAccount.py
index 49330c3..a99c2a6 100644
--- a/CIM14/IEC61968/Customers/CustomerAccount.py
+++ b/CIM14/IEC61968/Customers/CustomerAccount.py
@@ -53,9 +53,9 @@ class CustomerAccount(Document):
     def setPaymentTransactions(self, value):
         for x in self._PaymentTransactions:
             x.CustomerAccount = None
+        self._PaymentTransactions = []
         for y in value:
-            y._CustomerAccount = self
-        self._PaymentTransactions = value
+            y.CustomerAccount = self
 
     PaymentTransactions = property(getPaymentTransactions, setPaymentTransactions)
 
@@ -75,9 +75,9 @@ class CustomerAccount(Document):
     def setCustomerAgreements(self, value):
         for x in self._CustomerAgreements:
             x.CustomerAccount = None
+        self._CustomerAgreements = []
         for y in value:
-            y._CustomerAccount = self
-        self._CustomerAgreements = value
+            y.CustomerAccount = self
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
diff --git a/CIM14/IEC61968/Customers/CustomerAgreement.py b/CIM14/IEC61968/Customers/CustomerAgreement.py
index 875ce22..c5afb34 100644
--- a/CIM14/IEC61968/Customers/CustomerAgreement.py
+++ b/CIM14/IEC61968/Customers/CustomerAgreement.py
@@ -217,9 +217,9 @@ class CustomerAgreement(Agreement):
     def setMeterReadings(self, value):
         for x in self._MeterReadings:
             x.CustomerAgreement = None
+        self._MeterReadings = []
         for y in value:
-            y._CustomerAgreement = self
-        self._MeterReadings = value
+            y.CustomerAgreement = self
 
     MeterReadings = property(getMeterReadings, setMeterReadings)
 
@@ -256,9 +256,9 @@ class CustomerAgreement(Agreement):
     def setAuxiliaryAgreements(self, value):
         for x in self._AuxiliaryAgreements:
             x.CustomerAgreement = None
+        self._AuxiliaryAgreements = []
         for y in value:
-            y._CustomerAgreement = self
-        self._AuxiliaryAgreements = value
+            y.CustomerAgreement = self
 
     AuxiliaryAgreements = property(getAuxiliaryAgreements, setAuxiliaryAgreements)
 
@@ -278,9 +278,9 @@ class CustomerAgreement(Agreement):
     def setEndDeviceControls(self, value):
         for x in self._EndDeviceControls:
             x.CustomerAgreement = None
+        self._EndDeviceControls = []
         for y in value:
-            y._CustomerAgreement = self
-        self._EndDeviceControls = value
+            y.CustomerAgreement = self
 
     EndDeviceControls = property(getEndDeviceControls, setEndDeviceControls)
 
@@ -317,9 +317,9 @@ class CustomerAgreement(Agreement):
     def setServiceDeliveryPoints(self, value):
         for x in self._ServiceDeliveryPoints:
             x.CustomerAgreement = None
+        self._ServiceDeliveryPoints = []
         for y in value:
-            y._CustomerAgreement = self
-        self._ServiceDeliveryPoints = value
+            y.CustomerAgreement = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
diff --git a/CIM14/IEC61968/Customers/PricingStructure.py b/CIM14/IEC61968/Customers/PricingStructure.py
index db5a85a..cd0fa53 100644
--- a/CIM14/IEC61968/Customers/PricingStructure.py
+++ b/CIM14/IEC61968/Customers/PricingStructure.py
@@ -89,9 +89,9 @@ class PricingStructure(Document):
     def setTransactions(self, value):
         for x in self._Transactions:
             x.PricingStructure = None
+        self._Transactions = []
         for y in value:
-            y._PricingStructure = self
-        self._Transactions = value
+            y.PricingStructure = self
 
     Transactions = property(getTransactions, setTransactions)
 
diff --git a/CIM14/IEC61968/Customers/ServiceCategory.py b/CIM14/IEC61968/Customers/ServiceCategory.py
index bb6ace3..2863114 100644
--- a/CIM14/IEC61968/Customers/ServiceCategory.py
+++ b/CIM14/IEC61968/Customers/ServiceCategory.py
@@ -60,9 +60,9 @@ class ServiceCategory(IdentifiedObject):
     def setCustomerAgreements(self, value):
         for x in self._CustomerAgreements:
             x.ServiceCategory = None
+        self._CustomerAgreements = []
         for y in value:
-            y._ServiceCategory = self
-        self._CustomerAgreements = value
+            y.ServiceCategory = self
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
@@ -82,9 +82,9 @@ class ServiceCategory(IdentifiedObject):
     def setPricingStructures(self, value):
         for x in self._PricingStructures:
             x.ServiceCategory = None
+        self._PricingStructures = []
         for y in value:
-            y._ServiceCategory = self
-        self._PricingStructures = value
+            y.ServiceCategory = self
 
     PricingStructures = property(getPricingStructures, setPricingStructures)
 
@@ -104,9 +104,9 @@ class ServiceCategory(IdentifiedObject):
     def setServiceDeliveryPoints(self, value):
         for x in self._ServiceDeliveryPoints:
             x.ServiceCategory = None
+        self._ServiceDeliveryPoints = []
         for y in value:
-            y._ServiceCategory = self
-        self._ServiceDeliveryPoints = value
+            y.ServiceCategory = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
diff --git a/CIM14/IEC61968/Customers/ServiceLocation.py b/CIM14/IEC61968/Customers/ServiceLocation.py
index 1786e95..d9e8b38 100644
--- a/CIM14/IEC61968/Customers/ServiceLocation.py
+++ b/CIM14/IEC61968/Customers/ServiceLocation.py
@@ -69,9 +69,9 @@ class ServiceLocation(Location):
     def setEndDeviceAssets(self, value):
         for x in self._EndDeviceAssets:
             x.ServiceLocation = None
+        self._EndDeviceAssets = []
         for y in value:
-            y._ServiceLocation = self
-        self._EndDeviceAssets = value
+            y.ServiceLocation = self
 
     EndDeviceAssets = property(getEndDeviceAssets, setEndDeviceAssets)
 
@@ -122,9 +122,9 @@ class ServiceLocation(Location):
     def setServiceDeliveryPoints(self, value):
         for x in self._ServiceDeliveryPoints:
             x.ServiceLocation = None
+        self._ServiceDeliveryPoints = []
         for y in value:
-            y._ServiceLocation = self
-        self._ServiceDeliveryPoints = value
+            y.ServiceLocation = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
diff --git a/CIM14/IEC61968/Metering/DemandResponseProgram.py b/CIM14/IEC61968/Metering/DemandResponseProgram.py
index c971ba7..e6341bd 100644
--- a/CIM14/IEC61968/Metering/DemandResponseProgram.py
+++ b/CIM14/IEC61968/Metering/DemandResponseProgram.py
@@ -64,9 +64,9 @@ class DemandResponseProgram(IdentifiedObject):
     def setCustomerAgreements(self, value):
         for x in self._CustomerAgreements:
             x.DemandResponseProgram = None
+        self._CustomerAgreements = []
         for y in value:
-            y._DemandResponseProgram = self
-        self._CustomerAgreements = value
+            y.DemandResponseProgram = self
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
@@ -86,9 +86,9 @@ class DemandResponseProgram(IdentifiedObject):
     def setEndDeviceControls(self, value):
         for x in self._EndDeviceControls:
             x.DemandResponseProgram = None
+        self._EndDeviceControls = []
         for y in value:
-            y._DemandResponseProgram = self
-        self._EndDeviceControls = value
+            y.DemandResponseProgram = self
 
     EndDeviceControls = property(getEndDeviceControls, setEndDeviceControls)
 
@@ -111,9 +111,9 @@ class DemandResponseProgram(IdentifiedObject):
     def setEndDeviceGroups(self, value):
         for x in self._EndDeviceGroups:
             x.DemandResponseProgram = None
+        self._EndDeviceGroups = []
         for y in value:
-            y._DemandResponseProgram = self
-        self._EndDeviceGroups = value
+            y.DemandResponseProgram = self
 
     EndDeviceGroups = property(getEndDeviceGroups, setEndDeviceGroups)
 
diff --git a/CIM14/IEC61968/Metering/DeviceFunction.py b/CIM14/IEC61968/Metering/DeviceFunction.py
index a7b964d..6741f9a 100644
--- a/CIM14/IEC61968/Metering/DeviceFunction.py
+++ b/CIM14/IEC61968/Metering/DeviceFunction.py
@@ -78,9 +78,9 @@ class DeviceFunction(AssetFunction):
     def setRegisters(self, value):
         for x in self._Registers:
             x.DeviceFunction = None
+        self._Registers = []
         for y in value:
-            y._DeviceFunction = self
-        self._Registers = value
+            y.DeviceFunction = self
 
     Registers = property(getRegisters, setRegisters)
 
@@ -100,9 +100,9 @@ class DeviceFunction(AssetFunction):
     def setEndDeviceEvents(self, value):
         for x in self._EndDeviceEvents:
             x.DeviceFunction = None
+        self._EndDeviceEvents = []
         for y in value:
-            y._DeviceFunction = self
-        self._EndDeviceEvents = value
+            y.DeviceFunction = self
 
     EndDeviceEvents = property(getEndDeviceEvents, setEndDeviceEvents)
 
diff --git a/CIM14/IEC61968/Metering/EndDeviceAsset.py b/CIM14/IEC61968/Metering/EndDeviceAsset.py
index bd2ba70..463d437 100644
--- a/CIM14/IEC61968/Metering/EndDeviceAsset.py
+++ b/CIM14/IEC61968/Metering/EndDeviceAsset.py
@@ -198,9 +198,9 @@ class EndDeviceAsset(AssetContainer):
     def setDeviceFunctions(self, value):
         for x in self._DeviceFunctions:
             x.EndDeviceAsset = None
+        self._DeviceFunctions = []
         for y in value:
-            y._EndDeviceAsset = self
-        self._DeviceFunctions = value
+            y.EndDeviceAsset = self
 
     DeviceFunctions = property(getDeviceFunctions, setDeviceFunctions)
 
@@ -236,9 +236,9 @@ class EndDeviceAsset(AssetContainer):
     def setReadings(self, value):
         for x in self._Readings:
             x.EndDeviceAsset = None
+        self._Readings = []
         for y in value:
-            y._EndDeviceAsset = self
-        self._Readings = value
+            y.EndDeviceAsset = self
 
     Readings = property(getReadings, setReadings)
 
@@ -258,9 +258,9 @@ class EndDeviceAsset(AssetContainer):
     def setEndDeviceControls(self, value):
         for x in self._EndDeviceControls:
             x.EndDeviceAsset = None
+        self._EndDeviceControls = []
         for y in value:
-            y._EndDeviceAsset = self
-        self._EndDeviceControls = value
+            y.EndDeviceAsset = self
 
     EndDeviceControls = property(getEndDeviceControls, setEndDeviceControls)
 
diff --git a/CIM14/IEC61968/Metering/EndDeviceGroup.py b/CIM14/IEC61968/Metering/EndDeviceGroup.py
index c9f15fd..b137095 100644
--- a/CIM14/IEC61968/Metering/EndDeviceGroup.py
+++ b/CIM14/IEC61968/Metering/EndDeviceGroup.py
@@ -92,9 +92,9 @@ class EndDeviceGroup(IdentifiedObject):
     def setEndDeviceControls(self, value):
         for x in self._EndDeviceControls:
             x.EndDeviceGroup = None
+        self._EndDeviceControls = []
         for y in value:
-            y._EndDeviceGroup = self
-        self._EndDeviceControls = value
+            y.EndDeviceGroup = self
 
     EndDeviceControls = property(getEndDeviceControls, setEndDeviceControls)
 
diff --git a/CIM14/IEC61968/Metering/IntervalReading.py b/CIM14/IEC61968/Metering/IntervalReading.py
index dd67942..e4de4fb 100644
--- a/CIM14/IEC61968/Metering/IntervalReading.py
+++ b/CIM14/IEC61968/Metering/IntervalReading.py
@@ -57,9 +57,9 @@ class IntervalReading(MeasurementValue):
     def setReadingQualities(self, value):
         for x in self._ReadingQualities:
             x.IntervalReading = None
+        self._ReadingQualities = []
         for y in value:
-            y._IntervalReading = self
-        self._ReadingQualities = value
+            y.IntervalReading = self
 
     ReadingQualities = property(getReadingQualities, setReadingQualities)
 
diff --git a/CIM14/IEC61968/Metering/MeterAsset.py b/CIM14/IEC61968/Metering/MeterAsset.py
index b69e6e3..62759cb 100644
--- a/CIM14/IEC61968/Metering/MeterAsset.py
+++ b/CIM14/IEC61968/Metering/MeterAsset.py
@@ -73,9 +73,9 @@ class MeterAsset(EndDeviceAsset):
     def setMeterReplacementWorks(self, value):
         for x in self._MeterReplacementWorks:
             x.OldMeterAsset = None
+        self._MeterReplacementWorks = []
         for y in value:
-            y._OldMeterAsset = self
-        self._MeterReplacementWorks = value
+            y.OldMeterAsset = self
 
     MeterReplacementWorks = property(getMeterReplacementWorks, setMeterReplacementWorks)
 
@@ -95,9 +95,9 @@ class MeterAsset(EndDeviceAsset):
     def setMeterServiceWorks(self, value):
         for x in self._MeterServiceWorks:
             x.MeterAsset = None
+        self._MeterServiceWorks = []
         for y in value:
-            y._MeterAsset = self
-        self._MeterServiceWorks = value
+            y.MeterAsset = self
 
     MeterServiceWorks = property(getMeterServiceWorks, setMeterServiceWorks)
 
@@ -117,9 +117,9 @@ class MeterAsset(EndDeviceAsset):
     def setMeterReadings(self, value):
         for x in self._MeterReadings:
             x.MeterAsset = None
+        self._MeterReadings = []
         for y in value:
-            y._MeterAsset = self
-        self._MeterReadings = value
+            y.MeterAsset = self
 
     MeterReadings = property(getMeterReadings, setMeterReadings)
 
@@ -139,9 +139,9 @@ class MeterAsset(EndDeviceAsset):
     def setVendingTransactions(self, value):
         for x in self._VendingTransactions:
             x.MeterAsset = None
+        self._VendingTransactions = []
         for y in value:
-            y._MeterAsset = self
-        self._VendingTransactions = value
+            y.MeterAsset = self
 
     VendingTransactions = property(getVendingTransactions, setVendingTransactions)
 
diff --git a/CIM14/IEC61968/Metering/MeterReading.py b/CIM14/IEC61968/Metering/MeterReading.py
index faaa0c8..30fb07c 100644
--- a/CIM14/IEC61968/Metering/MeterReading.py
+++ b/CIM14/IEC61968/Metering/MeterReading.py
@@ -72,9 +72,9 @@ class MeterReading(IdentifiedObject):
     def setIntervalBlocks(self, value):
         for x in self._IntervalBlocks:
             x.MeterReading = None
+        self._IntervalBlocks = []
         for y in value:
-            y._MeterReading = self
-        self._IntervalBlocks = value
+            y.MeterReading = self
 
     IntervalBlocks = property(getIntervalBlocks, setIntervalBlocks)
 
@@ -128,9 +128,9 @@ class MeterReading(IdentifiedObject):
     def setEndDeviceEvents(self, value):
         for x in self._EndDeviceEvents:
             x.MeterReading = None
+        self._EndDeviceEvents = []
         for y in value:
-            y._MeterReading = self
-        self._EndDeviceEvents = value
+            y.MeterReading = self
 
     EndDeviceEvents = property(getEndDeviceEvents, setEndDeviceEvents)
 
diff --git a/CIM14/IEC61968/Metering/Pending.py b/CIM14/IEC61968/Metering/Pending.py
index 0886977..9ce6175 100644
--- a/CIM14/IEC61968/Metering/Pending.py
+++ b/CIM14/IEC61968/Metering/Pending.py
@@ -73,9 +73,9 @@ class Pending(Element):
     def setIntervalBlocks(self, value):
         for x in self._IntervalBlocks:
             x.Pending = None
+        self._IntervalBlocks = []
         for y in value:
-            y._Pending = self
-        self._IntervalBlocks = value
+            y.Pending = self
 
     IntervalBlocks = property(getIntervalBlocks, setIntervalBlocks)
 
diff --git a/CIM14/IEC61968/Metering/Reading.py b/CIM14/IEC61968/Metering/Reading.py
index 5c71888..2d8610e 100644
--- a/CIM14/IEC61968/Metering/Reading.py
+++ b/CIM14/IEC61968/Metering/Reading.py
@@ -82,9 +82,9 @@ class Reading(MeasurementValue):
     def setReadingQualities(self, value):
         for x in self._ReadingQualities:
             x.Reading = None
+        self._ReadingQualities = []
         for y in value:
-            y._Reading = self
-        self._ReadingQualities = value
+            y.Reading = self
 
     ReadingQualities = property(getReadingQualities, setReadingQualities)
 
diff --git a/CIM14/IEC61968/Metering/ReadingType.py b/CIM14/IEC61968/Metering/ReadingType.py
index 2afdecd..5c299e2 100644
--- a/CIM14/IEC61968/Metering/ReadingType.py
+++ b/CIM14/IEC61968/Metering/ReadingType.py
@@ -96,9 +96,9 @@ class ReadingType(IdentifiedObject):
     def setReadings(self, value):
         for x in self._Readings:
             x.ReadingType = None
+        self._Readings = []
         for y in value:
-            y._ReadingType = self
-        self._Readings = value
+            y.ReadingType = self
 
     Readings = property(getReadings, setReadings)
 
@@ -121,9 +121,9 @@ class ReadingType(IdentifiedObject):
     def setIntervalBlocks(self, value):
         for x in self._IntervalBlocks:
             x.ReadingType = None
+        self._IntervalBlocks = []
         for y in value:
-            y._ReadingType = self
-        self._IntervalBlocks = value
+            y.ReadingType = self
 
     IntervalBlocks = property(getIntervalBlocks, setIntervalBlocks)
 
diff --git a/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py b/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py
index 0b279a0..1680df2 100644
--- a/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py
+++ b/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py
@@ -204,9 +204,9 @@ class ServiceDeliveryPoint(IdentifiedObject):
     def setEndDeviceAssets(self, value):
         for x in self._EndDeviceAssets:
             x.ServiceDeliveryPoint = None
+        self._EndDeviceAssets = []
         for y in value:
-            y._ServiceDeliveryPoint = self
-        self._EndDeviceAssets = value
+            y.ServiceDeliveryPoint = self
 
     EndDeviceAssets = property(getEndDeviceAssets, setEndDeviceAssets)
 
@@ -276,9 +276,9 @@ class ServiceDeliveryPoint(IdentifiedObject):
     def setMeterReadings(self, value):
         for x in self._MeterReadings:
             x.ServiceDeliveryPoint = None
+        self._MeterReadings = []
         for y in value:
-            y._ServiceDeliveryPoint = self
-        self._MeterReadings = value
+            y.ServiceDeliveryPoint = self
 
     MeterReadings = property(getMeterReadings, setMeterReadings)
 
diff --git a/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py b/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py
index 5020da9..55befc8 100644
--- a/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py
+++ b/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py
@@ -122,9 +122,9 @@ class AuxiliaryAccount(Document):
     def setPaymentTransactions(self, value):
         for x in self._PaymentTransactions:
             x.AuxiliaryAccount = None
+        self._PaymentTransactions = []
         for y in value:
-            y._AuxiliaryAccount = self
-        self._PaymentTransactions = value
+            y.AuxiliaryAccount = self
 
     PaymentTransactions = property(getPaymentTransactions, setPaymentTransactions)
 
diff --git a/CIM14/IEC61968/PaymentMetering/AuxiliaryAgreement.py b/CIM14/IEC61968/PaymentMetering/AuxiliaryAgreement.py
index a63498c..3f8a28e 100644
--- a/CIM14/IEC61968/PaymentMetering/AuxiliaryAgreement.py
+++ b/CIM14/IEC61968/PaymentMetering/AuxiliaryAgreement.py
@@ -93,9 +93,9 @@ class AuxiliaryAgreement(Agreement):
     def setAuxiliaryAccounts(self, value):
         for x in self._AuxiliaryAccounts:
             x.AuxiliaryAgreement = None
+        self._AuxiliaryAccounts = []
         for y in value:
-            y._AuxiliaryAgreement = self
-        self._AuxiliaryAccounts = value
+            y.AuxiliaryAgreement = self
 
     AuxiliaryAccounts = property(getAuxiliaryAccounts, setAuxiliaryAccounts)
 
diff --git a/CIM14/IEC61968/PaymentMetering/Cashier.py b/CIM14/IEC61968/PaymentMetering/Cashier.py
index 36347da..50f92fc 100644
--- a/CIM14/IEC61968/PaymentMetering/Cashier.py
+++ b/CIM14/IEC61968/PaymentMetering/Cashier.py
@@ -56,9 +56,9 @@ class Cashier(IdentifiedObject):
     def setCashierShifts(self, value):
         for x in self._CashierShifts:
             x.Cashier = None
+        self._CashierShifts = []
         for y in value:
-            y._Cashier = self
-        self._CashierShifts = value
+            y.Cashier = self
 
     CashierShifts = property(getCashierShifts, setCashierShifts)
 
diff --git a/CIM14/IEC61968/PaymentMetering/CashierShift.py b/CIM14/IEC61968/PaymentMetering/CashierShift.py
index ebbf882..47fa086 100644
--- a/CIM14/IEC61968/PaymentMetering/CashierShift.py
+++ b/CIM14/IEC61968/PaymentMetering/CashierShift.py
@@ -65,9 +65,9 @@ class CashierShift(Shift):
     def setReceipts(self, value):
         for x in self._Receipts:
             x.CashierShift = None
+        self._Receipts = []
         for y in value:
-            y._CashierShift = self
-        self._Receipts = value
+            y.CashierShift = self
 
     Receipts = property(getReceipts, setReceipts)
 
@@ -86,9 +86,9 @@ class CashierShift(Shift):
     def setTransactions(self, value):
         for x in self._Transactions:
             x.CashierShift = None
+        self._Transactions = []
         for y in value:
-            y._CashierShift = self
-        self._Transactions = value
+            y.CashierShift = self
 
     Transactions = property(getTransactions, setTransactions)
 
diff --git a/CIM14/IEC61968/PaymentMetering/Charge.py b/CIM14/IEC61968/PaymentMetering/Charge.py
index 9303525..4ccbdea 100644
--- a/CIM14/IEC61968/PaymentMetering/Charge.py
+++ b/CIM14/IEC61968/PaymentMetering/Charge.py
@@ -123,9 +123,9 @@ class Charge(IdentifiedObject):
     def setChildCharges(self, value):
         for x in self._ChildCharges:
             x.ParentCharge = None
+        self._ChildCharges = []
         for y in value:
-            y._ParentCharge = self
-        self._ChildCharges = value
+            y.ParentCharge = self
 
     ChildCharges = property(getChildCharges, setChildCharges)
 
diff --git a/CIM14/IEC61968/PaymentMetering/MerchantAccount.py b/CIM14/IEC61968/PaymentMetering/MerchantAccount.py
index 76ac114..a9299ee 100644
--- a/CIM14/IEC61968/PaymentMetering/MerchantAccount.py
+++ b/CIM14/IEC61968/PaymentMetering/MerchantAccount.py
@@ -69,9 +69,9 @@ class MerchantAccount(Document):
     def setVendorShifts(self, value):
         for x in self._VendorShifts:
             x.MerchantAccount = None
+        self._VendorShifts = []
         for y in value:
-            y._MerchantAccount = self
-        self._VendorShifts = value
+            y.MerchantAccount = self
 
     VendorShifts = property(getVendorShifts, setVendorShifts)
 
@@ -108,9 +108,9 @@ class MerchantAccount(Document):
     def setVendors(self, value):
         for x in self._Vendors:
             x.MerchantAccount = None
+        self._Vendors = []
         for y in value:
-            y._MerchantAccount = self
-        self._Vendors = value
+            y.MerchantAccount = self
 
     Vendors = property(getVendors, setVendors)
 
diff --git a/CIM14/IEC61968/PaymentMetering/MerchantAgreement.py b/CIM14/IEC61968/PaymentMetering/MerchantAgreement.py
index 3dcd126..2ef61a7 100644
--- a/CIM14/IEC61968/PaymentMetering/MerchantAgreement.py
+++ b/CIM14/IEC61968/PaymentMetering/MerchantAgreement.py
@@ -49,9 +49,9 @@ class MerchantAgreement(Agreement):
     def setMerchantAccounts(self, value):
         for x in self._MerchantAccounts:
             x.MerchantAgreement = None
+        self._MerchantAccounts = []
         for y in value:
-            y._MerchantAgreement = self
-        self._MerchantAccounts = value
+            y.MerchantAgreement = self
 
     MerchantAccounts = property(getMerchantAccounts, setMerchantAccounts)
 
diff --git a/CIM14/IEC61968/PaymentMetering/PointOfSale.py b/CIM14/IEC61968/PaymentMetering/PointOfSale.py
index 09d4f69..0670f6e 100644
--- a/CIM14/IEC61968/PaymentMetering/PointOfSale.py
+++ b/CIM14/IEC61968/PaymentMetering/PointOfSale.py
@@ -74,9 +74,9 @@ class PointOfSale(IdentifiedObject):
     def setCashierShifts(self, value):
         for x in self._CashierShifts:
             x.PointOfSale = None
+        self._CashierShifts = []
         for y in value:
-            y._PointOfSale = self
-        self._CashierShifts = value
+            y.PointOfSale = self
 
     CashierShifts = property(getCashierShifts, setCashierShifts)
 
diff --git a/CIM14/IEC61968/PaymentMetering/Receipt.py b/CIM14/IEC61968/PaymentMetering/Receipt.py
index 1d8617e..4429741 100644
--- a/CIM14/IEC61968/PaymentMetering/Receipt.py
+++ b/CIM14/IEC61968/PaymentMetering/Receipt.py
@@ -85,9 +85,9 @@ class Receipt(IdentifiedObject):
     def setTenders(self, value):
         for x in self._Tenders:
             x.Receipt = None
+        self._Tenders = []
         for y in value:
-            y._Receipt = self
-        self._Tenders = value
+            y.Receipt = self
 
     Tenders = property(getTenders, setTenders)
 
@@ -124,9 +124,9 @@ class Receipt(IdentifiedObject):
     def setTransactions(self, value):
         for x in self._Transactions:
             x.Receipt = None
+        self._Transactions = []
         for y in value:
-            y._Receipt = self
-        self._Transactions = value
+            y.Receipt = self
 
     Transactions = property(getTransactions, setTransactions)
 
diff --git a/CIM14/IEC61968/PaymentMetering/ServiceSupplier.py b/CIM14/IEC61968/PaymentMetering/ServiceSupplier.py
index 844a900..239065a 100644
--- a/CIM14/IEC61968/PaymentMetering/ServiceSupplier.py
+++ b/CIM14/IEC61968/PaymentMetering/ServiceSupplier.py
@@ -61,9 +61,9 @@ class ServiceSupplier(Organisation):
     def setCustomerAgreements(self, value):
         for x in self._CustomerAgreements:
             x.ServiceSupplier = None
+        self._CustomerAgreements = []
         for y in value:
-            y._ServiceSupplier = self
-        self._CustomerAgreements = value
+            y.ServiceSupplier = self
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
@@ -83,9 +83,9 @@ class ServiceSupplier(Organisation):
     def setServiceDeliveryPoints(self, value):
         for x in self._ServiceDeliveryPoints:
             x.ServiceSupplier = None
+        self._ServiceDeliveryPoints = []
         for y in value:
-            y._ServiceSupplier = self
-        self._ServiceDeliveryPoints = value
+            y.ServiceSupplier = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
diff --git a/CIM14/IEC61968/PaymentMetering/Transaction.py b/CIM14/IEC61968/PaymentMetering/Transaction.py
index d9948a8..f2c28aa 100644
--- a/CIM14/IEC61968/PaymentMetering/Transaction.py
+++ b/CIM14/IEC61968/PaymentMetering/Transaction.py
@@ -125,9 +125,9 @@ class Transaction(IdentifiedObject):
     def setUserAttributes(self, value):
         for x in self._UserAttributes:
             x.Transaction = None
+        self._UserAttributes = []
         for y in value:
-            y._Transaction = self
-        self._UserAttributes = value
+            y.Transaction = self
 
     UserAttributes = property(getUserAttributes, setUserAttributes)
 
diff --git a/CIM14/IEC61968/PaymentMetering/Vendor.py b/CIM14/IEC61968/PaymentMetering/Vendor.py
index b29dcee..dd61324 100644
--- a/CIM14/IEC61968/PaymentMetering/Vendor.py
+++ b/CIM14/IEC61968/PaymentMetering/Vendor.py
@@ -61,9 +61,9 @@ class Vendor(IdentifiedObject):
     def setPointOfSales(self, value):
         for x in self._PointOfSales:
             x.Vendor = None
+        self._PointOfSales = []
         for y in value:
-            y._Vendor = self
-        self._PointOfSales = value
+            y.Vendor = self
 
     PointOfSales = property(getPointOfSales, setPointOfSales)
 
@@ -100,9 +100,9 @@ class Vendor(IdentifiedObject):
     def setCashiers(self, value):
         for x in self._Cashiers:
             x.Vendor = None
+        self._Cashiers = []
         for y in value:
-            y._Vendor = self
-        self._Cashiers = value
+            y.Vendor = self
 
     Cashiers = property(getCashiers, setCashiers)
 
@@ -122,9 +122,9 @@ class Vendor(IdentifiedObject):
     def setVendorShifts(self, value):
         for x in self._VendorShifts:
             x.Vendor = None
+        self._VendorShifts = []
         for y in value:
-            y._Vendor = self
-        self._VendorShifts = value
+            y.Vendor = self
 
     VendorShifts = property(getVendorShifts, setVendorShifts)
 
diff --git a/CIM14/IEC61968/PaymentMetering/VendorShift.py b/CIM14/IEC61968/PaymentMetering/VendorShift.py
index 2c2afb2..e914000 100644
--- a/CIM14/IEC61968/PaymentMetering/VendorShift.py
+++ b/CIM14/IEC61968/PaymentMetering/VendorShift.py
@@ -85,9 +85,9 @@ class VendorShift(Shift):
     def setTransactions(self, value):
         for x in self._Transactions:
             x.VendorShift = None
+        self._Transactions = []
         for y in value:
-            y._VendorShift = self
-        self._Transactions = value
+            y.VendorShift = self
 
     Transactions = property(getTransactions, setTransactions)
 
@@ -106,9 +106,9 @@ class VendorShift(Shift):
     def setReceipts(self, value):
         for x in self._Receipts:
             x.VendorShift = None
+        self._Receipts = []
         for y in value:
-            y._VendorShift = self
-        self._Receipts = value
+            y.VendorShift = self
 
     Receipts = property(getReceipts, setReceipts)
 
diff --git a/CIM14/IEC61968/WiresExt/DistributionTransformer.py b/CIM14/IEC61968/WiresExt/DistributionTransformer.py
index 048e0d8..a45e0a6 100644
--- a/CIM14/IEC61968/WiresExt/DistributionTransformer.py
+++ b/CIM14/IEC61968/WiresExt/DistributionTransformer.py
@@ -61,9 +61,9 @@ class DistributionTransformer(Equipment):
     def setWindings(self, value):
         for x in self._Windings:
             x.Transformer = None
+        self._Windings = []
         for y in value:
-            y._Transformer = self
-        self._Windings = value
+            y.Transformer = self
 
     Windings = property(getWindings, setWindings)
 
@@ -83,9 +83,9 @@ class DistributionTransformer(Equipment):
     def setServiceDeliveryPoints(self, value):
         for x in self._ServiceDeliveryPoints:
             x.Transformer = None
+        self._ServiceDeliveryPoints = []
         for y in value:
-            y._Transformer = self
-        self._ServiceDeliveryPoints = value
+            y.Transformer = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
diff --git a/CIM14/IEC61968/WiresExt/PerLengthPhaseImpedance.py b/CIM14/IEC61968/WiresExt/PerLengthPhaseImpedance.py
index 0b33411..2e5b041 100644
--- a/CIM14/IEC61968/WiresExt/PerLengthPhaseImpedance.py
+++ b/CIM14/IEC61968/WiresExt/PerLengthPhaseImpedance.py
@@ -57,9 +57,9 @@ class PerLengthPhaseImpedance(IdentifiedObject):
     def setConductorSegments(self, value):
         for x in self._ConductorSegments:
             x.PhaseImpedance = None
+        self._ConductorSegments = []
         for y in value:
-            y._PhaseImpedance = self
-        self._ConductorSegments = value
+            y.PhaseImpedance = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
@@ -79,9 +79,9 @@ class PerLengthPhaseImpedance(IdentifiedObject):
     def setPhaseImpedanceData(self, value):
         for x in self._PhaseImpedanceData:
             x.PhaseImpedance = None
+        self._PhaseImpedanceData = []
         for y in value:
-            y._PhaseImpedance = self
-        self._PhaseImpedanceData = value
+            y.PhaseImpedance = self
 
     PhaseImpedanceData = property(getPhaseImpedanceData, setPhaseImpedanceData)
 
diff --git a/CIM14/IEC61968/WiresExt/PerLengthSequenceImpedance.py b/CIM14/IEC61968/WiresExt/PerLengthSequenceImpedance.py
index 43d5565..d7eb3e3 100644
--- a/CIM14/IEC61968/WiresExt/PerLengthSequenceImpedance.py
+++ b/CIM14/IEC61968/WiresExt/PerLengthSequenceImpedance.py
@@ -81,9 +81,9 @@ class PerLengthSequenceImpedance(IdentifiedObject):
     def setConductorSegments(self, value):
         for x in self._ConductorSegments:
             x.SequenceImpedance = None
+        self._ConductorSegments = []
         for y in value:
-            y._SequenceImpedance = self
-        self._ConductorSegments = value
+            y.SequenceImpedance = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
diff --git a/CIM14/IEC61968/WiresExt/TransformerBank.py b/CIM14/IEC61968/WiresExt/TransformerBank.py
index 11bb80d..137a63e 100644
--- a/CIM14/IEC61968/WiresExt/TransformerBank.py
+++ b/CIM14/IEC61968/WiresExt/TransformerBank.py
@@ -53,9 +53,9 @@ class TransformerBank(Equipment):
     def setTransformers(self, value):
         for x in self._Transformers:
             x.TransformerBank = None
+        self._Transformers = []
         for y in value:
-            y._TransformerBank = self
-        self._Transformers = value
+            y.TransformerBank = self
 
     Transformers = property(getTransformers, setTransformers)
 
diff --git a/CIM14/IEC61968/WiresExt/WindingPiImpedance.py b/CIM14/IEC61968/WiresExt/WindingPiImpedance.py
index 7e5e950..0fec8a4 100644
--- a/CIM14/IEC61968/WiresExt/WindingPiImpedance.py
+++ b/CIM14/IEC61968/WiresExt/WindingPiImpedance.py
@@ -81,9 +81,9 @@ class WindingPiImpedance(IdentifiedObject):
     def setWindings(self, value):
         for x in self._Windings:
             x.PiImpedance = None
+        self._Windings = []
         for y in value:
-            y._PiImpedance = self
-        self._Windings = value
+            y.PiImpedance = self
 
     Windings = property(getWindings, setWindings)
 
diff --git a/CIM14/IEC61970/Contingency/Contingency.py b/CIM14/IEC61970/Contingency/Contingency.py
index 646e794..eef67bd 100644
--- a/CIM14/IEC61970/Contingency/Contingency.py
+++ b/CIM14/IEC61970/Contingency/Contingency.py
@@ -53,9 +53,9 @@ class Contingency(IdentifiedObject):
     def setContingencyElement(self, value):
         for x in self._ContingencyElement:
             x.Contingency = None
+        self._ContingencyElement = []
         for y in value:
-            y._Contingency = self
-        self._ContingencyElement = value
+            y.Contingency = self
 
     ContingencyElement = property(getContingencyElement, setContingencyElement)
 
diff --git a/CIM14/IEC61970/ControlArea/ControlArea.py b/CIM14/IEC61970/ControlArea/ControlArea.py
index 5ec0d5f..992af26 100644
--- a/CIM14/IEC61970/ControlArea/ControlArea.py
+++ b/CIM14/IEC61970/ControlArea/ControlArea.py
@@ -69,9 +69,9 @@ class ControlArea(PowerSystemResource):
     def setTieFlow(self, value):
         for x in self._TieFlow:
             x.ControlArea = None
+        self._TieFlow = []
         for y in value:
-            y._ControlArea = self
-        self._TieFlow = value
+            y.ControlArea = self
 
     TieFlow = property(getTieFlow, setTieFlow)
 
@@ -107,9 +107,9 @@ class ControlArea(PowerSystemResource):
     def setControlAreaGeneratingUnit(self, value):
         for x in self._ControlAreaGeneratingUnit:
             x.ControlArea = None
+        self._ControlAreaGeneratingUnit = []
         for y in value:
-            y._ControlArea = self
-        self._ControlAreaGeneratingUnit = value
+            y.ControlArea = self
 
     ControlAreaGeneratingUnit = property(getControlAreaGeneratingUnit, setControlAreaGeneratingUnit)
 
diff --git a/CIM14/IEC61970/ControlArea/ControlAreaGeneratingUnit.py b/CIM14/IEC61970/ControlArea/ControlAreaGeneratingUnit.py
index 4a5bbc5..ad6636a 100644
--- a/CIM14/IEC61970/ControlArea/ControlAreaGeneratingUnit.py
+++ b/CIM14/IEC61970/ControlArea/ControlAreaGeneratingUnit.py
@@ -57,9 +57,9 @@ class ControlAreaGeneratingUnit(Element):
     def setAltGeneratingUnitMeas(self, value):
         for x in self._AltGeneratingUnitMeas:
             x.ControlAreaGeneratingUnit = None
+        self._AltGeneratingUnitMeas = []
         for y in value:
-            y._ControlAreaGeneratingUnit = self
-        self._AltGeneratingUnitMeas = value
+            y.ControlAreaGeneratingUnit = self
 
     AltGeneratingUnitMeas = property(getAltGeneratingUnitMeas, setAltGeneratingUnitMeas)
 
diff --git a/CIM14/IEC61970/ControlArea/TieFlow.py b/CIM14/IEC61970/ControlArea/TieFlow.py
index 77dad7c..e4306de 100644
--- a/CIM14/IEC61970/ControlArea/TieFlow.py
+++ b/CIM14/IEC61970/ControlArea/TieFlow.py
@@ -78,9 +78,9 @@ class TieFlow(Element):
     def setAltTieMeas(self, value):
         for x in self._AltTieMeas:
             x.TieFlow = None
+        self._AltTieMeas = []
         for y in value:
-            y._TieFlow = self
-        self._AltTieMeas = value
+            y.TieFlow = self
 
     AltTieMeas = property(getAltTieMeas, setAltTieMeas)
 
diff --git a/CIM14/IEC61970/Core/BaseVoltage.py b/CIM14/IEC61970/Core/BaseVoltage.py
index caaa749..2a943c3 100644
--- a/CIM14/IEC61970/Core/BaseVoltage.py
+++ b/CIM14/IEC61970/Core/BaseVoltage.py
@@ -65,9 +65,9 @@ class BaseVoltage(IdentifiedObject):
     def setConductingEquipment(self, value):
         for x in self._ConductingEquipment:
             x.BaseVoltage = None
+        self._ConductingEquipment = []
         for y in value:
-            y._BaseVoltage = self
-        self._ConductingEquipment = value
+            y.BaseVoltage = self
 
     ConductingEquipment = property(getConductingEquipment, setConductingEquipment)
 
@@ -87,9 +87,9 @@ class BaseVoltage(IdentifiedObject):
     def setVoltageLevel(self, value):
         for x in self._VoltageLevel:
             x.BaseVoltage = None
+        self._VoltageLevel = []
         for y in value:
-            y._BaseVoltage = self
-        self._VoltageLevel = value
+            y.BaseVoltage = self
 
     VoltageLevel = property(getVoltageLevel, setVoltageLevel)
 
@@ -109,9 +109,9 @@ class BaseVoltage(IdentifiedObject):
     def setTopologicalNode(self, value):
         for x in self._TopologicalNode:
             x.BaseVoltage = None
+        self._TopologicalNode = []
         for y in value:
-            y._BaseVoltage = self
-        self._TopologicalNode = value
+            y.BaseVoltage = self
 
     TopologicalNode = property(getTopologicalNode, setTopologicalNode)
 
diff --git a/CIM14/IEC61970/Core/ConductingEquipment.py b/CIM14/IEC61970/Core/ConductingEquipment.py
index 0c61eb2..8002c64 100644
--- a/CIM14/IEC61970/Core/ConductingEquipment.py
+++ b/CIM14/IEC61970/Core/ConductingEquipment.py
@@ -69,9 +69,9 @@ class ConductingEquipment(Equipment):
     def setClearanceTags(self, value):
         for x in self._ClearanceTags:
             x.ConductingEquipment = None
+        self._ClearanceTags = []
         for y in value:
-            y._ConductingEquipment = self
-        self._ClearanceTags = value
+            y.ConductingEquipment = self
 
     ClearanceTags = property(getClearanceTags, setClearanceTags)
 
@@ -107,9 +107,9 @@ class ConductingEquipment(Equipment):
     def setTerminals(self, value):
         for x in self._Terminals:
             x.ConductingEquipment = None
+        self._Terminals = []
         for y in value:
-            y._ConductingEquipment = self
-        self._Terminals = value
+            y.ConductingEquipment = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/IEC61970/Core/ConnectivityNode.py b/CIM14/IEC61970/Core/ConnectivityNode.py
index 3ac1660..733c605 100644
--- a/CIM14/IEC61970/Core/ConnectivityNode.py
+++ b/CIM14/IEC61970/Core/ConnectivityNode.py
@@ -112,9 +112,9 @@ class ConnectivityNode(IdentifiedObject):
     def setTerminals(self, value):
         for x in self._Terminals:
             x.ConnectivityNode = None
+        self._Terminals = []
         for y in value:
-            y._ConnectivityNode = self
-        self._Terminals = value
+            y.ConnectivityNode = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/IEC61970/Core/ConnectivityNodeContainer.py b/CIM14/IEC61970/Core/ConnectivityNodeContainer.py
index 4610119..3872921 100644
--- a/CIM14/IEC61970/Core/ConnectivityNodeContainer.py
+++ b/CIM14/IEC61970/Core/ConnectivityNodeContainer.py
@@ -53,9 +53,9 @@ class ConnectivityNodeContainer(PowerSystemResource):
     def setConnectivityNodes(self, value):
         for x in self._ConnectivityNodes:
             x.ConnectivityNodeContainer = None
+        self._ConnectivityNodes = []
         for y in value:
-            y._ConnectivityNodeContainer = self
-        self._ConnectivityNodes = value
+            y.ConnectivityNodeContainer = self
 
     ConnectivityNodes = property(getConnectivityNodes, setConnectivityNodes)
 
@@ -75,9 +75,9 @@ class ConnectivityNodeContainer(PowerSystemResource):
     def setTopologicalNode(self, value):
         for x in self._TopologicalNode:
             x.ConnectivityNodeContainer = None
+        self._TopologicalNode = []
         for y in value:
-            y._ConnectivityNodeContainer = self
-        self._TopologicalNode = value
+            y.ConnectivityNodeContainer = self
 
     TopologicalNode = property(getTopologicalNode, setTopologicalNode)
 
diff --git a/CIM14/IEC61970/Core/Curve.py b/CIM14/IEC61970/Core/Curve.py
index a4535ab..cbf8e28 100644
--- a/CIM14/IEC61970/Core/Curve.py
+++ b/CIM14/IEC61970/Core/Curve.py
@@ -85,9 +85,9 @@ class Curve(IdentifiedObject):
     def setCurveDatas(self, value):
         for x in self._CurveDatas:
             x.Curve = None
+        self._CurveDatas = []
         for y in value:
-            y._Curve = self
-        self._CurveDatas = value
+            y.Curve = self
 
     CurveDatas = property(getCurveDatas, setCurveDatas)
 
diff --git a/CIM14/IEC61970/Core/Equipment.py b/CIM14/IEC61970/Core/Equipment.py
index 7204c29..e11cf0c 100644
--- a/CIM14/IEC61970/Core/Equipment.py
+++ b/CIM14/IEC61970/Core/Equipment.py
@@ -69,9 +69,9 @@ class Equipment(PowerSystemResource):
     def setOperationalLimitSet(self, value):
         for x in self._OperationalLimitSet:
             x.Equipment = None
+        self._OperationalLimitSet = []
         for y in value:
-            y._Equipment = self
-        self._OperationalLimitSet = value
+            y.Equipment = self
 
     OperationalLimitSet = property(getOperationalLimitSet, setOperationalLimitSet)
 
@@ -91,9 +91,9 @@ class Equipment(PowerSystemResource):
     def setContingencyEquipment(self, value):
         for x in self._ContingencyEquipment:
             x.Equipment = None
+        self._ContingencyEquipment = []
         for y in value:
-            y._Equipment = self
-        self._ContingencyEquipment = value
+            y.Equipment = self
 
     ContingencyEquipment = property(getContingencyEquipment, setContingencyEquipment)
 
diff --git a/CIM14/IEC61970/Core/EquipmentContainer.py b/CIM14/IEC61970/Core/EquipmentContainer.py
index 12f9a89..9c8c917 100644
--- a/CIM14/IEC61970/Core/EquipmentContainer.py
+++ b/CIM14/IEC61970/Core/EquipmentContainer.py
@@ -49,9 +49,9 @@ class EquipmentContainer(ConnectivityNodeContainer):
     def setEquipments(self, value):
         for x in self._Equipments:
             x.EquipmentContainer = None
+        self._Equipments = []
         for y in value:
-            y._EquipmentContainer = self
-        self._Equipments = value
+            y.EquipmentContainer = self
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM14/IEC61970/Core/GeographicalRegion.py b/CIM14/IEC61970/Core/GeographicalRegion.py
index cadfdef..560af4a 100644
--- a/CIM14/IEC61970/Core/GeographicalRegion.py
+++ b/CIM14/IEC61970/Core/GeographicalRegion.py
@@ -49,9 +49,9 @@ class GeographicalRegion(IdentifiedObject):
     def setRegions(self, value):
         for x in self._Regions:
             x.Region = None
+        self._Regions = []
         for y in value:
-            y._Region = self
-        self._Regions = value
+            y.Region = self
 
     Regions = property(getRegions, setRegions)
 
diff --git a/CIM14/IEC61970/Core/IrregularIntervalSchedule.py b/CIM14/IEC61970/Core/IrregularIntervalSchedule.py
index 21039ed..f25f5e9 100644
--- a/CIM14/IEC61970/Core/IrregularIntervalSchedule.py
+++ b/CIM14/IEC61970/Core/IrregularIntervalSchedule.py
@@ -49,9 +49,9 @@ class IrregularIntervalSchedule(BasicIntervalSchedule):
     def setTimePoints(self, value):
         for x in self._TimePoints:
             x.IntervalSchedule = None
+        self._TimePoints = []
         for y in value:
-            y._IntervalSchedule = self
-        self._TimePoints = value
+            y.IntervalSchedule = self
 
     TimePoints = property(getTimePoints, setTimePoints)
 
diff --git a/CIM14/IEC61970/Core/OperatingParticipant.py b/CIM14/IEC61970/Core/OperatingParticipant.py
index 14d89ab..24c6799 100644
--- a/CIM14/IEC61970/Core/OperatingParticipant.py
+++ b/CIM14/IEC61970/Core/OperatingParticipant.py
@@ -49,9 +49,9 @@ class OperatingParticipant(IdentifiedObject):
     def setOperatingShare(self, value):
         for x in self._OperatingShare:
             x.OperatingParticipant = None
+        self._OperatingShare = []
         for y in value:
-            y._OperatingParticipant = self
-        self._OperatingShare = value
+            y.OperatingParticipant = self
 
     OperatingShare = property(getOperatingShare, setOperatingShare)
 
diff --git a/CIM14/IEC61970/Core/PSRType.py b/CIM14/IEC61970/Core/PSRType.py
index e919a3f..90f6521 100644
--- a/CIM14/IEC61970/Core/PSRType.py
+++ b/CIM14/IEC61970/Core/PSRType.py
@@ -49,9 +49,9 @@ class PSRType(IdentifiedObject):
     def setPowerSystemResources(self, value):
         for x in self._PowerSystemResources:
             x.PSRType = None
+        self._PowerSystemResources = []
         for y in value:
-            y._PSRType = self
-        self._PowerSystemResources = value
+            y.PSRType = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/IEC61970/Core/PowerSystemResource.py b/CIM14/IEC61970/Core/PowerSystemResource.py
index e0b3fb0..bad3ec5 100644
--- a/CIM14/IEC61970/Core/PowerSystemResource.py
+++ b/CIM14/IEC61970/Core/PowerSystemResource.py
@@ -159,9 +159,9 @@ class PowerSystemResource(IdentifiedObject):
     def setMeasurements(self, value):
         for x in self._Measurements:
             x.PowerSystemResource = None
+        self._Measurements = []
         for y in value:
-            y._PowerSystemResource = self
-        self._Measurements = value
+            y.PowerSystemResource = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
@@ -181,9 +181,9 @@ class PowerSystemResource(IdentifiedObject):
     def setOperatingShare(self, value):
         for x in self._OperatingShare:
             x.PowerSystemResource = None
+        self._OperatingShare = []
         for y in value:
-            y._PowerSystemResource = self
-        self._OperatingShare = value
+            y.PowerSystemResource = self
 
     OperatingShare = property(getOperatingShare, setOperatingShare)
 
@@ -250,9 +250,9 @@ class PowerSystemResource(IdentifiedObject):
     def setBlock(self, value):
         for x in self._Block:
             x.PowerSystemResource = None
+        self._Block = []
         for y in value:
-            y._PowerSystemResource = self
-        self._Block = value
+            y.PowerSystemResource = self
 
     Block = property(getBlock, setBlock)
 
diff --git a/CIM14/IEC61970/Core/RegularIntervalSchedule.py b/CIM14/IEC61970/Core/RegularIntervalSchedule.py
index 561a8bb..d77987a 100644
--- a/CIM14/IEC61970/Core/RegularIntervalSchedule.py
+++ b/CIM14/IEC61970/Core/RegularIntervalSchedule.py
@@ -57,9 +57,9 @@ class RegularIntervalSchedule(BasicIntervalSchedule):
     def setTimePoints(self, value):
         for x in self._TimePoints:
             x.IntervalSchedule = None
+        self._TimePoints = []
         for y in value:
-            y._IntervalSchedule = self
-        self._TimePoints = value
+            y.IntervalSchedule = self
 
     TimePoints = property(getTimePoints, setTimePoints)
 
diff --git a/CIM14/IEC61970/Core/ReportingGroup.py b/CIM14/IEC61970/Core/ReportingGroup.py
index 52a5e82..70d7322 100644
--- a/CIM14/IEC61970/Core/ReportingGroup.py
+++ b/CIM14/IEC61970/Core/ReportingGroup.py
@@ -78,9 +78,9 @@ class ReportingGroup(IdentifiedObject):
     def setTopologicalNode(self, value):
         for x in self._TopologicalNode:
             x.ReportingGroup = None
+        self._TopologicalNode = []
         for y in value:
-            y._ReportingGroup = self
-        self._TopologicalNode = value
+            y.ReportingGroup = self
 
     TopologicalNode = property(getTopologicalNode, setTopologicalNode)
 
@@ -100,9 +100,9 @@ class ReportingGroup(IdentifiedObject):
     def setBusNameMarker(self, value):
         for x in self._BusNameMarker:
             x.ReportingGroup = None
+        self._BusNameMarker = []
         for y in value:
-            y._ReportingGroup = self
-        self._BusNameMarker = value
+            y.ReportingGroup = self
 
     BusNameMarker = property(getBusNameMarker, setBusNameMarker)
 
diff --git a/CIM14/IEC61970/Core/ReportingSuperGroup.py b/CIM14/IEC61970/Core/ReportingSuperGroup.py
index 17268ca..ac55d99 100644
--- a/CIM14/IEC61970/Core/ReportingSuperGroup.py
+++ b/CIM14/IEC61970/Core/ReportingSuperGroup.py
@@ -49,9 +49,9 @@ class ReportingSuperGroup(IdentifiedObject):
     def setReportingGroup(self, value):
         for x in self._ReportingGroup:
             x.ReportingSuperGroup = None
+        self._ReportingGroup = []
         for y in value:
-            y._ReportingSuperGroup = self
-        self._ReportingGroup = value
+            y.ReportingSuperGroup = self
 
     ReportingGroup = property(getReportingGroup, setReportingGroup)
 
diff --git a/CIM14/IEC61970/Core/SubGeographicalRegion.py b/CIM14/IEC61970/Core/SubGeographicalRegion.py
index bd91e41..2e24889 100644
--- a/CIM14/IEC61970/Core/SubGeographicalRegion.py
+++ b/CIM14/IEC61970/Core/SubGeographicalRegion.py
@@ -74,9 +74,9 @@ class SubGeographicalRegion(IdentifiedObject):
     def setSubstations(self, value):
         for x in self._Substations:
             x.Region = None
+        self._Substations = []
         for y in value:
-            y._Region = self
-        self._Substations = value
+            y.Region = self
 
     Substations = property(getSubstations, setSubstations)
 
@@ -96,9 +96,9 @@ class SubGeographicalRegion(IdentifiedObject):
     def setLines(self, value):
         for x in self._Lines:
             x.Region = None
+        self._Lines = []
         for y in value:
-            y._Region = self
-        self._Lines = value
+            y.Region = self
 
     Lines = property(getLines, setLines)
 
diff --git a/CIM14/IEC61970/Core/Substation.py b/CIM14/IEC61970/Core/Substation.py
index 1c400de..30ec4e0 100644
--- a/CIM14/IEC61970/Core/Substation.py
+++ b/CIM14/IEC61970/Core/Substation.py
@@ -57,9 +57,9 @@ class Substation(EquipmentContainer):
     def setVoltageLevels(self, value):
         for x in self._VoltageLevels:
             x.Substation = None
+        self._VoltageLevels = []
         for y in value:
-            y._Substation = self
-        self._VoltageLevels = value
+            y.Substation = self
 
     VoltageLevels = property(getVoltageLevels, setVoltageLevels)
 
@@ -79,9 +79,9 @@ class Substation(EquipmentContainer):
     def setBays(self, value):
         for x in self._Bays:
             x.Substation = None
+        self._Bays = []
         for y in value:
-            y._Substation = self
-        self._Bays = value
+            y.Substation = self
 
     Bays = property(getBays, setBays)
 
diff --git a/CIM14/IEC61970/Core/Terminal.py b/CIM14/IEC61970/Core/Terminal.py
index b4eb2bb..36baf7c 100644
--- a/CIM14/IEC61970/Core/Terminal.py
+++ b/CIM14/IEC61970/Core/Terminal.py
@@ -118,9 +118,9 @@ class Terminal(IdentifiedObject):
     def setBlock(self, value):
         for x in self._Block:
             x.Terminal = None
+        self._Block = []
         for y in value:
-            y._Terminal = self
-        self._Block = value
+            y.Terminal = self
 
     Block = property(getBlock, setBlock)
 
@@ -140,9 +140,9 @@ class Terminal(IdentifiedObject):
     def setOperationalLimitSet(self, value):
         for x in self._OperationalLimitSet:
             x.Terminal = None
+        self._OperationalLimitSet = []
         for y in value:
-            y._Terminal = self
-        self._OperationalLimitSet = value
+            y.Terminal = self
 
     OperationalLimitSet = property(getOperationalLimitSet, setOperationalLimitSet)
 
@@ -162,9 +162,9 @@ class Terminal(IdentifiedObject):
     def setHasSecond_MutualCoupling(self, value):
         for x in self._HasSecond_MutualCoupling:
             x.Second_Terminal = None
+        self._HasSecond_MutualCoupling = []
         for y in value:
-            y._Second_Terminal = self
-        self._HasSecond_MutualCoupling = value
+            y.Second_Terminal = self
 
     HasSecond_MutualCoupling = property(getHasSecond_MutualCoupling, setHasSecond_MutualCoupling)
 
@@ -184,9 +184,9 @@ class Terminal(IdentifiedObject):
     def setRegulatingControl(self, value):
         for x in self._RegulatingControl:
             x.Terminal = None
+        self._RegulatingControl = []
         for y in value:
-            y._Terminal = self
-        self._RegulatingControl = value
+            y.Terminal = self
 
     RegulatingControl = property(getRegulatingControl, setRegulatingControl)
 
@@ -206,9 +206,9 @@ class Terminal(IdentifiedObject):
     def setMeasurements(self, value):
         for x in self._Measurements:
             x.Terminal = None
+        self._Measurements = []
         for y in value:
-            y._Terminal = self
-        self._Measurements = value
+            y.Terminal = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
@@ -228,9 +228,9 @@ class Terminal(IdentifiedObject):
     def setBranchGroupTerminal(self, value):
         for x in self._BranchGroupTerminal:
             x.Terminal = None
+        self._BranchGroupTerminal = []
         for y in value:
-            y._Terminal = self
-        self._BranchGroupTerminal = value
+            y.Terminal = self
 
     BranchGroupTerminal = property(getBranchGroupTerminal, setBranchGroupTerminal)
 
@@ -267,9 +267,9 @@ class Terminal(IdentifiedObject):
     def setHasFirst_MutualCoupling(self, value):
         for x in self._HasFirst_MutualCoupling:
             x.First_Terminal = None
+        self._HasFirst_MutualCoupling = []
         for y in value:
-            y._First_Terminal = self
-        self._HasFirst_MutualCoupling = value
+            y.First_Terminal = self
 
     HasFirst_MutualCoupling = property(getHasFirst_MutualCoupling, setHasFirst_MutualCoupling)
 
@@ -322,9 +322,9 @@ class Terminal(IdentifiedObject):
     def setTieFlow(self, value):
         for x in self._TieFlow:
             x.Terminal = None
+        self._TieFlow = []
         for y in value:
-            y._Terminal = self
-        self._TieFlow = value
+            y.Terminal = self
 
     TieFlow = property(getTieFlow, setTieFlow)
 
diff --git a/CIM14/IEC61970/Core/Unit.py b/CIM14/IEC61970/Core/Unit.py
index ed416f3..1e024b6 100644
--- a/CIM14/IEC61970/Core/Unit.py
+++ b/CIM14/IEC61970/Core/Unit.py
@@ -65,9 +65,9 @@ class Unit(IdentifiedObject):
     def setControls(self, value):
         for x in self._Controls:
             x.Unit = None
+        self._Controls = []
         for y in value:
-            y._Unit = self
-        self._Controls = value
+            y.Unit = self
 
     Controls = property(getControls, setControls)
 
@@ -87,9 +87,9 @@ class Unit(IdentifiedObject):
     def setMeasurements(self, value):
         for x in self._Measurements:
             x.Unit = None
+        self._Measurements = []
         for y in value:
-            y._Unit = self
-        self._Measurements = value
+            y.Unit = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
@@ -108,9 +108,9 @@ class Unit(IdentifiedObject):
     def setMetaBlockConOutput(self, value):
         for x in self._MetaBlockConOutput:
             x.Unit = None
+        self._MetaBlockConOutput = []
         for y in value:
-            y._Unit = self
-        self._MetaBlockConOutput = value
+            y.Unit = self
 
     MetaBlockConOutput = property(getMetaBlockConOutput, setMetaBlockConOutput)
 
@@ -129,9 +129,9 @@ class Unit(IdentifiedObject):
     def setMetaBlockConInput(self, value):
         for x in self._MetaBlockConInput:
             x.Unit = None
+        self._MetaBlockConInput = []
         for y in value:
-            y._Unit = self
-        self._MetaBlockConInput = value
+            y.Unit = self
 
     MetaBlockConInput = property(getMetaBlockConInput, setMetaBlockConInput)
 
@@ -151,9 +151,9 @@ class Unit(IdentifiedObject):
     def setProtectionEquipments(self, value):
         for x in self._ProtectionEquipments:
             x.Unit = None
+        self._ProtectionEquipments = []
         for y in value:
-            y._Unit = self
-        self._ProtectionEquipments = value
+            y.Unit = self
 
     ProtectionEquipments = property(getProtectionEquipments, setProtectionEquipments)
 
diff --git a/CIM14/IEC61970/Core/VoltageLevel.py b/CIM14/IEC61970/Core/VoltageLevel.py
index 62617bb..887a5dc 100644
--- a/CIM14/IEC61970/Core/VoltageLevel.py
+++ b/CIM14/IEC61970/Core/VoltageLevel.py
@@ -82,9 +82,9 @@ class VoltageLevel(EquipmentContainer):
     def setBays(self, value):
         for x in self._Bays:
             x.VoltageLevel = None
+        self._Bays = []
         for y in value:
-            y._VoltageLevel = self
-        self._Bays = value
+            y.VoltageLevel = self
 
     Bays = property(getBays, setBays)
 
diff --git a/CIM14/IEC61970/Dynamics/Block.py b/CIM14/IEC61970/Dynamics/Block.py
index c36a9ba..3bc9ce9 100644
--- a/CIM14/IEC61970/Dynamics/Block.py
+++ b/CIM14/IEC61970/Dynamics/Block.py
@@ -125,9 +125,9 @@ class Block(PowerSystemResource):
     def setblockUsageInputReference0(self, value):
         for x in self._blockUsageInputReference0:
             x.block0 = None
+        self._blockUsageInputReference0 = []
         for y in value:
-            y._block0 = self
-        self._blockUsageInputReference0 = value
+            y.block0 = self
 
     blockUsageInputReference0 = property(getblockUsageInputReference0, setblockUsageInputReference0)
 
@@ -146,9 +146,9 @@ class Block(PowerSystemResource):
     def setBlockUsageOutputReference(self, value):
         for x in self._BlockUsageOutputReference:
             x.block0 = None
+        self._BlockUsageOutputReference = []
         for y in value:
-            y._block0 = self
-        self._BlockUsageOutputReference = value
+            y.block0 = self
 
     BlockUsageOutputReference = property(getBlockUsageOutputReference, setBlockUsageOutputReference)
 
@@ -200,9 +200,9 @@ class Block(PowerSystemResource):
     def settieToMeasurement0(self, value):
         for x in self._tieToMeasurement0:
             x.block0 = None
+        self._tieToMeasurement0 = []
         for y in value:
-            y._block0 = self
-        self._tieToMeasurement0 = value
+            y.block0 = self
 
     tieToMeasurement0 = property(gettieToMeasurement0, settieToMeasurement0)
 
@@ -237,9 +237,9 @@ class Block(PowerSystemResource):
     def setBlockConnection(self, value):
         for x in self._BlockConnection:
             x.Block = None
+        self._BlockConnection = []
         for y in value:
-            y._Block = self
-        self._BlockConnection = value
+            y.Block = self
 
     BlockConnection = property(getBlockConnection, setBlockConnection)
 
@@ -258,9 +258,9 @@ class Block(PowerSystemResource):
     def setBlockParameter(self, value):
         for x in self._BlockParameter:
             x.MemberOf_Block = None
+        self._BlockParameter = []
         for y in value:
-            y._MemberOf_Block = self
-        self._BlockParameter = value
+            y.MemberOf_Block = self
 
     BlockParameter = property(getBlockParameter, setBlockParameter)
 
diff --git a/CIM14/IEC61970/Dynamics/BlockConnectivity.py b/CIM14/IEC61970/Dynamics/BlockConnectivity.py
index 9cb881b..c513652 100644
--- a/CIM14/IEC61970/Dynamics/BlockConnectivity.py
+++ b/CIM14/IEC61970/Dynamics/BlockConnectivity.py
@@ -72,9 +72,9 @@ class BlockConnectivity(IdentifiedObject):
     def setBlock(self, value):
         for x in self._Block:
             x.MemberOf_BlockConnectivity = None
+        self._Block = []
         for y in value:
-            y._MemberOf_BlockConnectivity = self
-        self._Block = value
+            y.MemberOf_BlockConnectivity = self
 
     Block = property(getBlock, setBlock)
 
@@ -93,9 +93,9 @@ class BlockConnectivity(IdentifiedObject):
     def setBlockConnection(self, value):
         for x in self._BlockConnection:
             x.MemberOf_BlockConnectivity = None
+        self._BlockConnection = []
         for y in value:
-            y._MemberOf_BlockConnectivity = self
-        self._BlockConnection = value
+            y.MemberOf_BlockConnectivity = self
 
     BlockConnection = property(getBlockConnection, setBlockConnection)
 
diff --git a/CIM14/IEC61970/Dynamics/BlockInputType.py b/CIM14/IEC61970/Dynamics/BlockInputType.py
index 793383c..de16de3 100644
--- a/CIM14/IEC61970/Dynamics/BlockInputType.py
+++ b/CIM14/IEC61970/Dynamics/BlockInputType.py
@@ -50,9 +50,9 @@ class BlockInputType(IdentifiedObject):
     def setslotInput0(self, value):
         for x in self._slotInput0:
             x.blockInputType0 = None
+        self._slotInput0 = []
         for y in value:
-            y._blockInputType0 = self
-        self._slotInput0 = value
+            y.blockInputType0 = self
 
     slotInput0 = property(getslotInput0, setslotInput0)
 
@@ -71,9 +71,9 @@ class BlockInputType(IdentifiedObject):
     def setmetaBlockInput0(self, value):
         for x in self._metaBlockInput0:
             x.blockInputType0 = None
+        self._metaBlockInput0 = []
         for y in value:
-            y._blockInputType0 = self
-        self._metaBlockInput0 = value
+            y.blockInputType0 = self
 
     metaBlockInput0 = property(getmetaBlockInput0, setmetaBlockInput0)
 
diff --git a/CIM14/IEC61970/Dynamics/BlockOutputType.py b/CIM14/IEC61970/Dynamics/BlockOutputType.py
index b1fe914..56f3200 100644
--- a/CIM14/IEC61970/Dynamics/BlockOutputType.py
+++ b/CIM14/IEC61970/Dynamics/BlockOutputType.py
@@ -50,9 +50,9 @@ class BlockOutputType(IdentifiedObject):
     def setmetaBlockOutput0(self, value):
         for x in self._metaBlockOutput0:
             x.blockOutputType0 = None
+        self._metaBlockOutput0 = []
         for y in value:
-            y._blockOutputType0 = self
-        self._metaBlockOutput0 = value
+            y.blockOutputType0 = self
 
     metaBlockOutput0 = property(getmetaBlockOutput0, setmetaBlockOutput0)
 
@@ -71,9 +71,9 @@ class BlockOutputType(IdentifiedObject):
     def setslotOutput0(self, value):
         for x in self._slotOutput0:
             x.blockOutputType0 = None
+        self._slotOutput0 = []
         for y in value:
-            y._blockOutputType0 = self
-        self._slotOutput0 = value
+            y.blockOutputType0 = self
 
     slotOutput0 = property(getslotOutput0, setslotOutput0)
 
diff --git a/CIM14/IEC61970/Dynamics/BlockType.py b/CIM14/IEC61970/Dynamics/BlockType.py
index b01dc6e..c94500b 100644
--- a/CIM14/IEC61970/Dynamics/BlockType.py
+++ b/CIM14/IEC61970/Dynamics/BlockType.py
@@ -52,9 +52,9 @@ class BlockType(IdentifiedObject):
     def setslot0(self, value):
         for x in self._slot0:
             x.blockType0 = None
+        self._slot0 = []
         for y in value:
-            y._blockType0 = self
-        self._slot0 = value
+            y.blockType0 = self
 
     slot0 = property(getslot0, setslot0)
 
@@ -73,9 +73,9 @@ class BlockType(IdentifiedObject):
     def setmetaBlock0(self, value):
         for x in self._metaBlock0:
             x.blockType0 = None
+        self._metaBlock0 = []
         for y in value:
-            y._blockType0 = self
-        self._metaBlock0 = value
+            y.blockType0 = self
 
     metaBlock0 = property(getmetaBlock0, setmetaBlock0)
 
diff --git a/CIM14/IEC61970/Dynamics/BlockUsageOutputReference.py b/CIM14/IEC61970/Dynamics/BlockUsageOutputReference.py
index 95df5a6..c51b474 100644
--- a/CIM14/IEC61970/Dynamics/BlockUsageOutputReference.py
+++ b/CIM14/IEC61970/Dynamics/BlockUsageOutputReference.py
@@ -73,9 +73,9 @@ class BlockUsageOutputReference(IdentifiedObject):
     def setBlockUsageInputReference(self, value):
         for x in self._BlockUsageInputReference:
             x.BlockUsageOutputReference = None
+        self._BlockUsageInputReference = []
         for y in value:
-            y._BlockUsageOutputReference = self
-        self._BlockUsageInputReference = value
+            y.BlockUsageOutputReference = self
 
     BlockUsageInputReference = property(getBlockUsageInputReference, setBlockUsageInputReference)
 
diff --git a/CIM14/IEC61970/Dynamics/ConnectionFrame.py b/CIM14/IEC61970/Dynamics/ConnectionFrame.py
index 97afa69..e0d364d 100644
--- a/CIM14/IEC61970/Dynamics/ConnectionFrame.py
+++ b/CIM14/IEC61970/Dynamics/ConnectionFrame.py
@@ -50,9 +50,9 @@ class ConnectionFrame(IdentifiedObject):
     def setslotConnection0(self, value):
         for x in self._slotConnection0:
             x.connectionFrame0 = None
+        self._slotConnection0 = []
         for y in value:
-            y._connectionFrame0 = self
-        self._slotConnection0 = value
+            y.connectionFrame0 = self
 
     slotConnection0 = property(getslotConnection0, setslotConnection0)
 
@@ -71,9 +71,9 @@ class ConnectionFrame(IdentifiedObject):
     def setslot0(self, value):
         for x in self._slot0:
             x.connectionFrame0 = None
+        self._slot0 = []
         for y in value:
-            y._connectionFrame0 = self
-        self._slot0 = value
+            y.connectionFrame0 = self
 
     slot0 = property(getslot0, setslot0)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlock.py b/CIM14/IEC61970/Dynamics/MetaBlock.py
index 690f377..4ec9a3e 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlock.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlock.py
@@ -96,9 +96,9 @@ class MetaBlock(IdentifiedObject):
     def setMetaBlockReference(self, value):
         for x in self._MetaBlockReference:
             x.MemberOf_MetaBlock = None
+        self._MetaBlockReference = []
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockReference = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockReference = property(getMetaBlockReference, setMetaBlockReference)
 
@@ -118,9 +118,9 @@ class MetaBlock(IdentifiedObject):
     def setMetaBlockOutput(self, value):
         for x in self._MetaBlockOutput:
             x.MemberOf_MetaBlock = None
+        self._MetaBlockOutput = []
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockOutput = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockOutput = property(getMetaBlockOutput, setMetaBlockOutput)
 
@@ -139,9 +139,9 @@ class MetaBlock(IdentifiedObject):
     def setMetaBlockState(self, value):
         for x in self._MetaBlockState:
             x.MemberOf_MetaBlock = None
+        self._MetaBlockState = []
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockState = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockState = property(getMetaBlockState, setMetaBlockState)
 
@@ -160,9 +160,9 @@ class MetaBlock(IdentifiedObject):
     def setMetaBlockSignal(self, value):
         for x in self._MetaBlockSignal:
             x.MemberOf_MetaBlock = None
+        self._MetaBlockSignal = []
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockSignal = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockSignal = property(getMetaBlockSignal, setMetaBlockSignal)
 
@@ -198,9 +198,9 @@ class MetaBlock(IdentifiedObject):
     def setMetaBlockInput(self, value):
         for x in self._MetaBlockInput:
             x.MemberOf_MetaBlock = None
+        self._MetaBlockInput = []
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockInput = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockInput = property(getMetaBlockInput, setMetaBlockInput)
 
@@ -219,9 +219,9 @@ class MetaBlock(IdentifiedObject):
     def setblockConstant0(self, value):
         for x in self._blockConstant0:
             x.metaBlock0 = None
+        self._blockConstant0 = []
         for y in value:
-            y._metaBlock0 = self
-        self._blockConstant0 = value
+            y.metaBlock0 = self
 
     blockConstant0 = property(getblockConstant0, setblockConstant0)
 
@@ -240,9 +240,9 @@ class MetaBlock(IdentifiedObject):
     def setBlock(self, value):
         for x in self._Block:
             x.MetaBlock = None
+        self._Block = []
         for y in value:
-            y._MetaBlock = self
-        self._Block = value
+            y.MetaBlock = self
 
     Block = property(getBlock, setBlock)
 
@@ -262,9 +262,9 @@ class MetaBlock(IdentifiedObject):
     def setMetaBlockParameter(self, value):
         for x in self._MetaBlockParameter:
             x.MemberOf_MetaBlock = None
+        self._MetaBlockParameter = []
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockParameter = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockParameter = property(getMetaBlockParameter, setMetaBlockParameter)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockConOutput.py b/CIM14/IEC61970/Dynamics/MetaBlockConOutput.py
index ab1e841..773d9bd 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockConOutput.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockConOutput.py
@@ -56,9 +56,9 @@ class MetaBlockConOutput(IdentifiedObject):
     def setMetaBlockConSignal(self, value):
         for x in self._MetaBlockConSignal:
             x.MetaBlockConOutput = None
+        self._MetaBlockConSignal = []
         for y in value:
-            y._MetaBlockConOutput = self
-        self._MetaBlockConSignal = value
+            y.MetaBlockConOutput = self
 
     MetaBlockConSignal = property(getMetaBlockConSignal, setMetaBlockConSignal)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockConnectable.py b/CIM14/IEC61970/Dynamics/MetaBlockConnectable.py
index eef2070..6bd6159 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockConnectable.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockConnectable.py
@@ -80,9 +80,9 @@ class MetaBlockConnectable(IdentifiedObject):
     def setStandardControlBlock_MetaBlockStateReference(self, value):
         for x in self._StandardControlBlock_MetaBlockStateReference:
             x.StandardControlBlock_MetaBlockConnectable = None
+        self._StandardControlBlock_MetaBlockStateReference = []
         for y in value:
-            y._StandardControlBlock_MetaBlockConnectable = self
-        self._StandardControlBlock_MetaBlockStateReference = value
+            y.StandardControlBlock_MetaBlockConnectable = self
 
     StandardControlBlock_MetaBlockStateReference = property(getStandardControlBlock_MetaBlockStateReference, setStandardControlBlock_MetaBlockStateReference)
 
@@ -101,9 +101,9 @@ class MetaBlockConnectable(IdentifiedObject):
     def setMetaBlockOutputReference(self, value):
         for x in self._MetaBlockOutputReference:
             x.MetaBlockConnectable = None
+        self._MetaBlockOutputReference = []
         for y in value:
-            y._MetaBlockConnectable = self
-        self._MetaBlockOutputReference = value
+            y.MetaBlockConnectable = self
 
     MetaBlockOutputReference = property(getMetaBlockOutputReference, setMetaBlockOutputReference)
 
@@ -122,9 +122,9 @@ class MetaBlockConnectable(IdentifiedObject):
     def setMetaBlockStateReference(self, value):
         for x in self._MetaBlockStateReference:
             x.MetaBlockConnectable = None
+        self._MetaBlockStateReference = []
         for y in value:
-            y._MetaBlockConnectable = self
-        self._MetaBlockStateReference = value
+            y.MetaBlockConnectable = self
 
     MetaBlockStateReference = property(getMetaBlockStateReference, setMetaBlockStateReference)
 
@@ -144,9 +144,9 @@ class MetaBlockConnectable(IdentifiedObject):
     def setBlockInputReference(self, value):
         for x in self._BlockInputReference:
             x.BlockConnectable = None
+        self._BlockInputReference = []
         for y in value:
-            y._BlockConnectable = self
-        self._BlockInputReference = value
+            y.BlockConnectable = self
 
     BlockInputReference = property(getBlockInputReference, setBlockInputReference)
 
@@ -165,9 +165,9 @@ class MetaBlockConnectable(IdentifiedObject):
     def setStandardControlBlock_MetaBlockInputReference(self, value):
         for x in self._StandardControlBlock_MetaBlockInputReference:
             x.StandardControlBlock_MetaBlockConnectable = None
+        self._StandardControlBlock_MetaBlockInputReference = []
         for y in value:
-            y._StandardControlBlock_MetaBlockConnectable = self
-        self._StandardControlBlock_MetaBlockInputReference = value
+            y.StandardControlBlock_MetaBlockConnectable = self
 
     StandardControlBlock_MetaBlockInputReference = property(getStandardControlBlock_MetaBlockInputReference, setStandardControlBlock_MetaBlockInputReference)
 
@@ -186,9 +186,9 @@ class MetaBlockConnectable(IdentifiedObject):
     def setStandardControlBlock_MetaBlockParameterReference(self, value):
         for x in self._StandardControlBlock_MetaBlockParameterReference:
             x.StandardControlBlock_MetaBlockConnectable = None
+        self._StandardControlBlock_MetaBlockParameterReference = []
         for y in value:
-            y._StandardControlBlock_MetaBlockConnectable = self
-        self._StandardControlBlock_MetaBlockParameterReference = value
+            y.StandardControlBlock_MetaBlockConnectable = self
 
     StandardControlBlock_MetaBlockParameterReference = property(getStandardControlBlock_MetaBlockParameterReference, setStandardControlBlock_MetaBlockParameterReference)
 
@@ -207,9 +207,9 @@ class MetaBlockConnectable(IdentifiedObject):
     def setMetaBlockParameterReference(self, value):
         for x in self._MetaBlockParameterReference:
             x.MetaBlockConnectable = None
+        self._MetaBlockParameterReference = []
         for y in value:
-            y._MetaBlockConnectable = self
-        self._MetaBlockParameterReference = value
+            y.MetaBlockConnectable = self
 
     MetaBlockParameterReference = property(getMetaBlockParameterReference, setMetaBlockParameterReference)
 
@@ -228,9 +228,9 @@ class MetaBlockConnectable(IdentifiedObject):
     def setStandardControlBlock_MetaBlockOutputReference(self, value):
         for x in self._StandardControlBlock_MetaBlockOutputReference:
             x.StandardControlBlock_MetaBlockConnectable = None
+        self._StandardControlBlock_MetaBlockOutputReference = []
         for y in value:
-            y._StandardControlBlock_MetaBlockConnectable = self
-        self._StandardControlBlock_MetaBlockOutputReference = value
+            y.StandardControlBlock_MetaBlockConnectable = self
 
     StandardControlBlock_MetaBlockOutputReference = property(getStandardControlBlock_MetaBlockOutputReference, setStandardControlBlock_MetaBlockOutputReference)
 
@@ -249,9 +249,9 @@ class MetaBlockConnectable(IdentifiedObject):
     def setMetaBlockInputReference(self, value):
         for x in self._MetaBlockInputReference:
             x.MetaBlockConnectable = None
+        self._MetaBlockInputReference = []
         for y in value:
-            y._MetaBlockConnectable = self
-        self._MetaBlockInputReference = value
+            y.MetaBlockConnectable = self
 
     MetaBlockInputReference = property(getMetaBlockInputReference, setMetaBlockInputReference)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockConnection.py b/CIM14/IEC61970/Dynamics/MetaBlockConnection.py
index cb230fb..1dabeaa 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockConnection.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockConnection.py
@@ -66,9 +66,9 @@ class MetaBlockConnection(IdentifiedObject):
     def setMetaBlockConOutput(self, value):
         for x in self._MetaBlockConOutput:
             x.MemberOf_MetaBlockConnection = None
+        self._MetaBlockConOutput = []
         for y in value:
-            y._MemberOf_MetaBlockConnection = self
-        self._MetaBlockConOutput = value
+            y.MemberOf_MetaBlockConnection = self
 
     MetaBlockConOutput = property(getMetaBlockConOutput, setMetaBlockConOutput)
 
@@ -87,9 +87,9 @@ class MetaBlockConnection(IdentifiedObject):
     def setMetaBlockConInput(self, value):
         for x in self._MetaBlockConInput:
             x.MemberOf_MetaBlockConnection = None
+        self._MetaBlockConInput = []
         for y in value:
-            y._MemberOf_MetaBlockConnection = self
-        self._MetaBlockConInput = value
+            y.MemberOf_MetaBlockConnection = self
 
     MetaBlockConInput = property(getMetaBlockConInput, setMetaBlockConInput)
 
@@ -124,9 +124,9 @@ class MetaBlockConnection(IdentifiedObject):
     def setBlockConnection(self, value):
         for x in self._BlockConnection:
             x.MetaBlockConnection = None
+        self._BlockConnection = []
         for y in value:
-            y._MetaBlockConnection = self
-        self._BlockConnection = value
+            y.MetaBlockConnection = self
 
     BlockConnection = property(getBlockConnection, setBlockConnection)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockConnectivity.py b/CIM14/IEC61970/Dynamics/MetaBlockConnectivity.py
index 55ca69b..17edfd1 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockConnectivity.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockConnectivity.py
@@ -62,9 +62,9 @@ class MetaBlockConnectivity(IdentifiedObject):
     def setBlockConnectivity(self, value):
         for x in self._BlockConnectivity:
             x.MetaBlockConnectivity = None
+        self._BlockConnectivity = []
         for y in value:
-            y._MetaBlockConnectivity = self
-        self._BlockConnectivity = value
+            y.MetaBlockConnectivity = self
 
     BlockConnectivity = property(getBlockConnectivity, setBlockConnectivity)
 
@@ -83,9 +83,9 @@ class MetaBlockConnectivity(IdentifiedObject):
     def setMetaBlockConSignal(self, value):
         for x in self._MetaBlockConSignal:
             x.MemberOf_MetaBlockConnectivity = None
+        self._MetaBlockConSignal = []
         for y in value:
-            y._MemberOf_MetaBlockConnectivity = self
-        self._MetaBlockConSignal = value
+            y.MemberOf_MetaBlockConnectivity = self
 
     MetaBlockConSignal = property(getMetaBlockConSignal, setMetaBlockConSignal)
 
@@ -104,9 +104,9 @@ class MetaBlockConnectivity(IdentifiedObject):
     def setmetaBlockConnection0(self, value):
         for x in self._metaBlockConnection0:
             x.metaBlockConnectivity0 = None
+        self._metaBlockConnection0 = []
         for y in value:
-            y._metaBlockConnectivity0 = self
-        self._metaBlockConnection0 = value
+            y.metaBlockConnectivity0 = self
 
     metaBlockConnection0 = property(getmetaBlockConnection0, setmetaBlockConnection0)
 
@@ -125,9 +125,9 @@ class MetaBlockConnectivity(IdentifiedObject):
     def setmetaBlockConSignal0(self, value):
         for x in self._metaBlockConSignal0:
             x.metaBlockConnectivity0 = None
+        self._metaBlockConSignal0 = []
         for y in value:
-            y._metaBlockConnectivity0 = self
-        self._metaBlockConSignal0 = value
+            y.metaBlockConnectivity0 = self
 
     metaBlockConSignal0 = property(getmetaBlockConSignal0, setmetaBlockConSignal0)
 
@@ -146,9 +146,9 @@ class MetaBlockConnectivity(IdentifiedObject):
     def setMetaBlockConnection(self, value):
         for x in self._MetaBlockConnection:
             x.MemberOf_MetaBlockConnectivity = None
+        self._MetaBlockConnection = []
         for y in value:
-            y._MemberOf_MetaBlockConnectivity = self
-        self._MetaBlockConnection = value
+            y.MemberOf_MetaBlockConnectivity = self
 
     MetaBlockConnection = property(getMetaBlockConnection, setMetaBlockConnection)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockInput.py b/CIM14/IEC61970/Dynamics/MetaBlockInput.py
index ed2b174..939097a 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockInput.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockInput.py
@@ -65,9 +65,9 @@ class MetaBlockInput(MetaBlockConnectable):
     def setblockInputReference0(self, value):
         for x in self._blockInputReference0:
             x.metaBlockInput0 = None
+        self._blockInputReference0 = []
         for y in value:
-            y._metaBlockInput0 = self
-        self._blockInputReference0 = value
+            y.metaBlockInput0 = self
 
     blockInputReference0 = property(getblockInputReference0, setblockInputReference0)
 
@@ -103,9 +103,9 @@ class MetaBlockInput(MetaBlockConnectable):
     def setblockUsageInputReference0(self, value):
         for x in self._blockUsageInputReference0:
             x.metaBlockInput0 = None
+        self._blockUsageInputReference0 = []
         for y in value:
-            y._metaBlockInput0 = self
-        self._blockUsageInputReference0 = value
+            y.metaBlockInput0 = self
 
     blockUsageInputReference0 = property(getblockUsageInputReference0, setblockUsageInputReference0)
 
@@ -141,9 +141,9 @@ class MetaBlockInput(MetaBlockConnectable):
     def settieToMeasurement0(self, value):
         for x in self._tieToMeasurement0:
             x.metaBlockInput0 = None
+        self._tieToMeasurement0 = []
         for y in value:
-            y._metaBlockInput0 = self
-        self._tieToMeasurement0 = value
+            y.metaBlockInput0 = self
 
     tieToMeasurement0 = property(gettieToMeasurement0, settieToMeasurement0)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockOutput.py b/CIM14/IEC61970/Dynamics/MetaBlockOutput.py
index 327b4a5..ea16617 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockOutput.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockOutput.py
@@ -61,9 +61,9 @@ class MetaBlockOutput(MetaBlockConnectable):
     def setBlockOutputReference(self, value):
         for x in self._BlockOutputReference:
             x.metaBlockOutput0 = None
+        self._BlockOutputReference = []
         for y in value:
-            y._metaBlockOutput0 = self
-        self._BlockOutputReference = value
+            y.metaBlockOutput0 = self
 
     BlockOutputReference = property(getBlockOutputReference, setBlockOutputReference)
 
@@ -99,9 +99,9 @@ class MetaBlockOutput(MetaBlockConnectable):
     def setblockUsageOutputReference0(self, value):
         for x in self._blockUsageOutputReference0:
             x.metaBlockOutput0 = None
+        self._blockUsageOutputReference0 = []
         for y in value:
-            y._metaBlockOutput0 = self
-        self._blockUsageOutputReference0 = value
+            y.metaBlockOutput0 = self
 
     blockUsageOutputReference0 = property(getblockUsageOutputReference0, setblockUsageOutputReference0)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockOutputReference.py b/CIM14/IEC61970/Dynamics/MetaBlockOutputReference.py
index 67cfba5..12ef487 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockOutputReference.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockOutputReference.py
@@ -90,9 +90,9 @@ class MetaBlockOutputReference(IdentifiedObject):
     def setMetaBlockSignal(self, value):
         for x in self._MetaBlockSignal:
             x.To = None
+        self._MetaBlockSignal = []
         for y in value:
-            y._To = self
-        self._MetaBlockSignal = value
+            y.To = self
 
     MetaBlockSignal = property(getMetaBlockSignal, setMetaBlockSignal)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockParameter.py b/CIM14/IEC61970/Dynamics/MetaBlockParameter.py
index bc13a9c..68ef2e8 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockParameter.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockParameter.py
@@ -52,9 +52,9 @@ class MetaBlockParameter(MetaBlockConnectable):
     def setBlockParameter(self, value):
         for x in self._BlockParameter:
             x.MetaBlockParameter = None
+        self._BlockParameter = []
         for y in value:
-            y._MetaBlockParameter = self
-        self._BlockParameter = value
+            y.MetaBlockParameter = self
 
     BlockParameter = property(getBlockParameter, setBlockParameter)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockReference.py b/CIM14/IEC61970/Dynamics/MetaBlockReference.py
index 915301a..edc84a9 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockReference.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockReference.py
@@ -83,9 +83,9 @@ class MetaBlockReference(IdentifiedObject):
     def setblockInputReference0(self, value):
         for x in self._blockInputReference0:
             x.metaBlockReference0 = None
+        self._blockInputReference0 = []
         for y in value:
-            y._metaBlockReference0 = self
-        self._blockInputReference0 = value
+            y.metaBlockReference0 = self
 
     blockInputReference0 = property(getblockInputReference0, setblockInputReference0)
 
@@ -152,9 +152,9 @@ class MetaBlockReference(IdentifiedObject):
     def setMetaBlockStateReference(self, value):
         for x in self._MetaBlockStateReference:
             x.MemberOf_MetaBlockReference = None
+        self._MetaBlockStateReference = []
         for y in value:
-            y._MemberOf_MetaBlockReference = self
-        self._MetaBlockStateReference = value
+            y.MemberOf_MetaBlockReference = self
 
     MetaBlockStateReference = property(getMetaBlockStateReference, setMetaBlockStateReference)
 
@@ -173,9 +173,9 @@ class MetaBlockReference(IdentifiedObject):
     def setMetaBlockInputReference(self, value):
         for x in self._MetaBlockInputReference:
             x.MemberOf_MetaBlockReference = None
+        self._MetaBlockInputReference = []
         for y in value:
-            y._MemberOf_MetaBlockReference = self
-        self._MetaBlockInputReference = value
+            y.MemberOf_MetaBlockReference = self
 
     MetaBlockInputReference = property(getMetaBlockInputReference, setMetaBlockInputReference)
 
@@ -194,9 +194,9 @@ class MetaBlockReference(IdentifiedObject):
     def setMetaBlockOutputReference(self, value):
         for x in self._MetaBlockOutputReference:
             x.MemberOf_MetaBlockReference = None
+        self._MetaBlockOutputReference = []
         for y in value:
-            y._MemberOf_MetaBlockReference = self
-        self._MetaBlockOutputReference = value
+            y.MemberOf_MetaBlockReference = self
 
     MetaBlockOutputReference = property(getMetaBlockOutputReference, setMetaBlockOutputReference)
 
@@ -215,9 +215,9 @@ class MetaBlockReference(IdentifiedObject):
     def setBlockParameter(self, value):
         for x in self._BlockParameter:
             x.MemberOf_MetaBlockReference = None
+        self._BlockParameter = []
         for y in value:
-            y._MemberOf_MetaBlockReference = self
-        self._BlockParameter = value
+            y.MemberOf_MetaBlockReference = self
 
     BlockParameter = property(getBlockParameter, setBlockParameter)
 
@@ -236,9 +236,9 @@ class MetaBlockReference(IdentifiedObject):
     def setMetaBlockParameterReference(self, value):
         for x in self._MetaBlockParameterReference:
             x.MemberOf_MetaBlockReference = None
+        self._MetaBlockParameterReference = []
         for y in value:
-            y._MemberOf_MetaBlockReference = self
-        self._MetaBlockParameterReference = value
+            y.MemberOf_MetaBlockReference = self
 
     MetaBlockParameterReference = property(getMetaBlockParameterReference, setMetaBlockParameterReference)
 
diff --git a/CIM14/IEC61970/Dynamics/Slot.py b/CIM14/IEC61970/Dynamics/Slot.py
index 48f17a9..7b403c4 100644
--- a/CIM14/IEC61970/Dynamics/Slot.py
+++ b/CIM14/IEC61970/Dynamics/Slot.py
@@ -78,9 +78,9 @@ class Slot(IdentifiedObject):
     def setslotReference0(self, value):
         for x in self._slotReference0:
             x.slot0 = None
+        self._slotReference0 = []
         for y in value:
-            y._slot0 = self
-        self._slotReference0 = value
+            y.slot0 = self
 
     slotReference0 = property(getslotReference0, setslotReference0)
 
@@ -99,9 +99,9 @@ class Slot(IdentifiedObject):
     def setslotOutput0(self, value):
         for x in self._slotOutput0:
             x.slot0 = None
+        self._slotOutput0 = []
         for y in value:
-            y._slot0 = self
-        self._slotOutput0 = value
+            y.slot0 = self
 
     slotOutput0 = property(getslotOutput0, setslotOutput0)
 
@@ -136,9 +136,9 @@ class Slot(IdentifiedObject):
     def setslotInput0(self, value):
         for x in self._slotInput0:
             x.slot0 = None
+        self._slotInput0 = []
         for y in value:
-            y._slot0 = self
-        self._slotInput0 = value
+            y.slot0 = self
 
     slotInput0 = property(getslotInput0, setslotInput0)
 
diff --git a/CIM14/IEC61970/Dynamics/SlotOutput.py b/CIM14/IEC61970/Dynamics/SlotOutput.py
index f178cb3..4fca996 100644
--- a/CIM14/IEC61970/Dynamics/SlotOutput.py
+++ b/CIM14/IEC61970/Dynamics/SlotOutput.py
@@ -70,9 +70,9 @@ class SlotOutput(IdentifiedObject):
     def setslotConnection0(self, value):
         for x in self._slotConnection0:
             x.slotOutput0 = None
+        self._slotConnection0 = []
         for y in value:
-            y._slotOutput0 = self
-        self._slotConnection0 = value
+            y.slotOutput0 = self
 
     slotConnection0 = property(getslotConnection0, setslotConnection0)
 
diff --git a/CIM14/IEC61970/Dynamics/SlotReference.py b/CIM14/IEC61970/Dynamics/SlotReference.py
index 2916de1..1ca6ed2 100644
--- a/CIM14/IEC61970/Dynamics/SlotReference.py
+++ b/CIM14/IEC61970/Dynamics/SlotReference.py
@@ -72,9 +72,9 @@ class SlotReference(IdentifiedObject):
     def setblock0(self, value):
         for x in self._block0:
             x.slotReference0 = None
+        self._block0 = []
         for y in value:
-            y._slotReference0 = self
-        self._block0 = value
+            y.slotReference0 = self
 
     block0 = property(getblock0, setblock0)
 
diff --git a/CIM14/IEC61970/Dynamics/UserBlockParameter.py b/CIM14/IEC61970/Dynamics/UserBlockParameter.py
index 12f1ec5..700d8e2 100644
--- a/CIM14/IEC61970/Dynamics/UserBlockParameter.py
+++ b/CIM14/IEC61970/Dynamics/UserBlockParameter.py
@@ -48,9 +48,9 @@ class UserBlockParameter(MetaBlockParameter):
     def setBlockUsageParameter(self, value):
         for x in self._BlockUsageParameter:
             x.UserBlockParameter = None
+        self._BlockUsageParameter = []
         for y in value:
-            y._UserBlockParameter = self
-        self._BlockUsageParameter = value
+            y.UserBlockParameter = self
 
     BlockUsageParameter = property(getBlockUsageParameter, setBlockUsageParameter)
 
diff --git a/CIM14/IEC61970/Equivalents/EquivalentNetwork.py b/CIM14/IEC61970/Equivalents/EquivalentNetwork.py
index e416074..cb27c1f 100644
--- a/CIM14/IEC61970/Equivalents/EquivalentNetwork.py
+++ b/CIM14/IEC61970/Equivalents/EquivalentNetwork.py
@@ -49,9 +49,9 @@ class EquivalentNetwork(ConnectivityNodeContainer):
     def setEquivalentEquipments(self, value):
         for x in self._EquivalentEquipments:
             x.EquivalentNetwork = None
+        self._EquivalentEquipments = []
         for y in value:
-            y._EquivalentNetwork = self
-        self._EquivalentEquipments = value
+            y.EquivalentNetwork = self
 
     EquivalentEquipments = property(getEquivalentEquipments, setEquivalentEquipments)
 
diff --git a/CIM14/IEC61970/Generation/GenerationDynamics/HeatRecoveryBoiler.py b/CIM14/IEC61970/Generation/GenerationDynamics/HeatRecoveryBoiler.py
index 55bb26a..f6d7290 100644
--- a/CIM14/IEC61970/Generation/GenerationDynamics/HeatRecoveryBoiler.py
+++ b/CIM14/IEC61970/Generation/GenerationDynamics/HeatRecoveryBoiler.py
@@ -53,9 +53,9 @@ class HeatRecoveryBoiler(FossilSteamSupply):
     def setCombustionTurbines(self, value):
         for x in self._CombustionTurbines:
             x.HeatRecoveryBoiler = None
+        self._CombustionTurbines = []
         for y in value:
-            y._HeatRecoveryBoiler = self
-        self._CombustionTurbines = value
+            y.HeatRecoveryBoiler = self
 
     CombustionTurbines = property(getCombustionTurbines, setCombustionTurbines)
 
diff --git a/CIM14/IEC61970/Generation/Production/CogenerationPlant.py b/CIM14/IEC61970/Generation/Production/CogenerationPlant.py
index d8d1f77..8bfff77 100644
--- a/CIM14/IEC61970/Generation/Production/CogenerationPlant.py
+++ b/CIM14/IEC61970/Generation/Production/CogenerationPlant.py
@@ -73,9 +73,9 @@ class CogenerationPlant(PowerSystemResource):
     def setThermalGeneratingUnits(self, value):
         for x in self._ThermalGeneratingUnits:
             x.CogenerationPlant = None
+        self._ThermalGeneratingUnits = []
         for y in value:
-            y._CogenerationPlant = self
-        self._ThermalGeneratingUnits = value
+            y.CogenerationPlant = self
 
     ThermalGeneratingUnits = property(getThermalGeneratingUnits, setThermalGeneratingUnits)
 
diff --git a/CIM14/IEC61970/Generation/Production/CombinedCyclePlant.py b/CIM14/IEC61970/Generation/Production/CombinedCyclePlant.py
index e078cd1..63fed63 100644
--- a/CIM14/IEC61970/Generation/Production/CombinedCyclePlant.py
+++ b/CIM14/IEC61970/Generation/Production/CombinedCyclePlant.py
@@ -53,9 +53,9 @@ class CombinedCyclePlant(PowerSystemResource):
     def setThermalGeneratingUnits(self, value):
         for x in self._ThermalGeneratingUnits:
             x.CombinedCyclePlant = None
+        self._ThermalGeneratingUnits = []
         for y in value:
-            y._CombinedCyclePlant = self
-        self._ThermalGeneratingUnits = value
+            y.CombinedCyclePlant = self
 
     ThermalGeneratingUnits = property(getThermalGeneratingUnits, setThermalGeneratingUnits)
 
diff --git a/CIM14/IEC61970/Generation/Production/FossilFuel.py b/CIM14/IEC61970/Generation/Production/FossilFuel.py
index 32091b4..4b81889 100644
--- a/CIM14/IEC61970/Generation/Production/FossilFuel.py
+++ b/CIM14/IEC61970/Generation/Production/FossilFuel.py
@@ -93,9 +93,9 @@ class FossilFuel(IdentifiedObject):
     def setFuelAllocationSchedules(self, value):
         for x in self._FuelAllocationSchedules:
             x.FossilFuel = None
+        self._FuelAllocationSchedules = []
         for y in value:
-            y._FossilFuel = self
-        self._FuelAllocationSchedules = value
+            y.FossilFuel = self
 
     FuelAllocationSchedules = property(getFuelAllocationSchedules, setFuelAllocationSchedules)
 
diff --git a/CIM14/IEC61970/Generation/Production/GeneratingUnit.py b/CIM14/IEC61970/Generation/Production/GeneratingUnit.py
index a025573..7c109b4 100644
--- a/CIM14/IEC61970/Generation/Production/GeneratingUnit.py
+++ b/CIM14/IEC61970/Generation/Production/GeneratingUnit.py
@@ -237,9 +237,9 @@ class GeneratingUnit(Equipment):
     def setSynchronousMachines(self, value):
         for x in self._SynchronousMachines:
             x.GeneratingUnit = None
+        self._SynchronousMachines = []
         for y in value:
-            y._GeneratingUnit = self
-        self._SynchronousMachines = value
+            y.GeneratingUnit = self
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
@@ -259,9 +259,9 @@ class GeneratingUnit(Equipment):
     def setGrossToNetActivePowerCurves(self, value):
         for x in self._GrossToNetActivePowerCurves:
             x.GeneratingUnit = None
+        self._GrossToNetActivePowerCurves = []
         for y in value:
-            y._GeneratingUnit = self
-        self._GrossToNetActivePowerCurves = value
+            y.GeneratingUnit = self
 
     GrossToNetActivePowerCurves = property(getGrossToNetActivePowerCurves, setGrossToNetActivePowerCurves)
 
@@ -281,9 +281,9 @@ class GeneratingUnit(Equipment):
     def setGenUnitOpCostCurves(self, value):
         for x in self._GenUnitOpCostCurves:
             x.GeneratingUnit = None
+        self._GenUnitOpCostCurves = []
         for y in value:
-            y._GeneratingUnit = self
-        self._GenUnitOpCostCurves = value
+            y.GeneratingUnit = self
 
     GenUnitOpCostCurves = property(getGenUnitOpCostCurves, setGenUnitOpCostCurves)
 
@@ -319,9 +319,9 @@ class GeneratingUnit(Equipment):
     def setControlAreaGeneratingUnit(self, value):
         for x in self._ControlAreaGeneratingUnit:
             x.GeneratingUnit = None
+        self._ControlAreaGeneratingUnit = []
         for y in value:
-            y._GeneratingUnit = self
-        self._ControlAreaGeneratingUnit = value
+            y.GeneratingUnit = self
 
     ControlAreaGeneratingUnit = property(getControlAreaGeneratingUnit, setControlAreaGeneratingUnit)
 
diff --git a/CIM14/IEC61970/Generation/Production/HydroGeneratingUnit.py b/CIM14/IEC61970/Generation/Production/HydroGeneratingUnit.py
index 271f3e2..78f1f4c 100644
--- a/CIM14/IEC61970/Generation/Production/HydroGeneratingUnit.py
+++ b/CIM14/IEC61970/Generation/Production/HydroGeneratingUnit.py
@@ -102,9 +102,9 @@ class HydroGeneratingUnit(GeneratingUnit):
     def setHydroGeneratingEfficiencyCurves(self, value):
         for x in self._HydroGeneratingEfficiencyCurves:
             x.HydroGeneratingUnit = None
+        self._HydroGeneratingEfficiencyCurves = []
         for y in value:
-            y._HydroGeneratingUnit = self
-        self._HydroGeneratingEfficiencyCurves = value
+            y.HydroGeneratingUnit = self
 
     HydroGeneratingEfficiencyCurves = property(getHydroGeneratingEfficiencyCurves, setHydroGeneratingEfficiencyCurves)
 
@@ -124,9 +124,9 @@ class HydroGeneratingUnit(GeneratingUnit):
     def setTailbayLossCurve(self, value):
         for x in self._TailbayLossCurve:
             x.HydroGeneratingUnit = None
+        self._TailbayLossCurve = []
         for y in value:
-            y._HydroGeneratingUnit = self
-        self._TailbayLossCurve = value
+            y.HydroGeneratingUnit = self
 
     TailbayLossCurve = property(getTailbayLossCurve, setTailbayLossCurve)
 
diff --git a/CIM14/IEC61970/Generation/Production/HydroPowerPlant.py b/CIM14/IEC61970/Generation/Production/HydroPowerPlant.py
index 07e1ca4..c334d10 100644
--- a/CIM14/IEC61970/Generation/Production/HydroPowerPlant.py
+++ b/CIM14/IEC61970/Generation/Production/HydroPowerPlant.py
@@ -97,9 +97,9 @@ class HydroPowerPlant(PowerSystemResource):
     def setHydroGeneratingUnits(self, value):
         for x in self._HydroGeneratingUnits:
             x.HydroPowerPlant = None
+        self._HydroGeneratingUnits = []
         for y in value:
-            y._HydroPowerPlant = self
-        self._HydroGeneratingUnits = value
+            y.HydroPowerPlant = self
 
     HydroGeneratingUnits = property(getHydroGeneratingUnits, setHydroGeneratingUnits)
 
@@ -119,9 +119,9 @@ class HydroPowerPlant(PowerSystemResource):
     def setHydroPumps(self, value):
         for x in self._HydroPumps:
             x.HydroPowerPlant = None
+        self._HydroPumps = []
         for y in value:
-            y._HydroPowerPlant = self
-        self._HydroPumps = value
+            y.HydroPowerPlant = self
 
     HydroPumps = property(getHydroPumps, setHydroPumps)
 
diff --git a/CIM14/IEC61970/Generation/Production/Reservoir.py b/CIM14/IEC61970/Generation/Production/Reservoir.py
index d825a0d..00ba49d 100644
--- a/CIM14/IEC61970/Generation/Production/Reservoir.py
+++ b/CIM14/IEC61970/Generation/Production/Reservoir.py
@@ -117,9 +117,9 @@ class Reservoir(PowerSystemResource):
     def setLevelVsVolumeCurves(self, value):
         for x in self._LevelVsVolumeCurves:
             x.Reservoir = None
+        self._LevelVsVolumeCurves = []
         for y in value:
-            y._Reservoir = self
-        self._LevelVsVolumeCurves = value
+            y.Reservoir = self
 
     LevelVsVolumeCurves = property(getLevelVsVolumeCurves, setLevelVsVolumeCurves)
 
@@ -139,9 +139,9 @@ class Reservoir(PowerSystemResource):
     def setInflowForecasts(self, value):
         for x in self._InflowForecasts:
             x.Reservoir = None
+        self._InflowForecasts = []
         for y in value:
-            y._Reservoir = self
-        self._InflowForecasts = value
+            y.Reservoir = self
 
     InflowForecasts = property(getInflowForecasts, setInflowForecasts)
 
@@ -177,9 +177,9 @@ class Reservoir(PowerSystemResource):
     def setHydroPowerPlants(self, value):
         for x in self._HydroPowerPlants:
             x.Reservoir = None
+        self._HydroPowerPlants = []
         for y in value:
-            y._Reservoir = self
-        self._HydroPowerPlants = value
+            y.Reservoir = self
 
     HydroPowerPlants = property(getHydroPowerPlants, setHydroPowerPlants)
 
@@ -199,9 +199,9 @@ class Reservoir(PowerSystemResource):
     def setUpstreamFromHydroPowerPlants(self, value):
         for x in self._UpstreamFromHydroPowerPlants:
             x.GenSourcePumpDischargeReservoir = None
+        self._UpstreamFromHydroPowerPlants = []
         for y in value:
-            y._GenSourcePumpDischargeReservoir = self
-        self._UpstreamFromHydroPowerPlants = value
+            y.GenSourcePumpDischargeReservoir = self
 
     UpstreamFromHydroPowerPlants = property(getUpstreamFromHydroPowerPlants, setUpstreamFromHydroPowerPlants)
 
@@ -238,9 +238,9 @@ class Reservoir(PowerSystemResource):
     def setSpillsIntoReservoirs(self, value):
         for x in self._SpillsIntoReservoirs:
             x.SpillsFromReservoir = None
+        self._SpillsIntoReservoirs = []
         for y in value:
-            y._SpillsFromReservoir = self
-        self._SpillsIntoReservoirs = value
+            y.SpillsFromReservoir = self
 
     SpillsIntoReservoirs = property(getSpillsIntoReservoirs, setSpillsIntoReservoirs)
 
diff --git a/CIM14/IEC61970/Generation/Production/ThermalGeneratingUnit.py b/CIM14/IEC61970/Generation/Production/ThermalGeneratingUnit.py
index 202e285..b8c2b01 100644
--- a/CIM14/IEC61970/Generation/Production/ThermalGeneratingUnit.py
+++ b/CIM14/IEC61970/Generation/Production/ThermalGeneratingUnit.py
@@ -113,9 +113,9 @@ class ThermalGeneratingUnit(GeneratingUnit):
     def setEmmissionAccounts(self, value):
         for x in self._EmmissionAccounts:
             x.ThermalGeneratingUnit = None
+        self._EmmissionAccounts = []
         for y in value:
-            y._ThermalGeneratingUnit = self
-        self._EmmissionAccounts = value
+            y.ThermalGeneratingUnit = self
 
     EmmissionAccounts = property(getEmmissionAccounts, setEmmissionAccounts)
 
@@ -169,9 +169,9 @@ class ThermalGeneratingUnit(GeneratingUnit):
     def setEmissionCurves(self, value):
         for x in self._EmissionCurves:
             x.ThermalGeneratingUnit = None
+        self._EmissionCurves = []
         for y in value:
-            y._ThermalGeneratingUnit = self
-        self._EmissionCurves = value
+            y.ThermalGeneratingUnit = self
 
     EmissionCurves = property(getEmissionCurves, setEmissionCurves)
 
@@ -239,9 +239,9 @@ class ThermalGeneratingUnit(GeneratingUnit):
     def setFuelAllocationSchedules(self, value):
         for x in self._FuelAllocationSchedules:
             x.ThermalGeneratingUnit = None
+        self._FuelAllocationSchedules = []
         for y in value:
-            y._ThermalGeneratingUnit = self
-        self._FuelAllocationSchedules = value
+            y.ThermalGeneratingUnit = self
 
     FuelAllocationSchedules = property(getFuelAllocationSchedules, setFuelAllocationSchedules)
 
@@ -261,9 +261,9 @@ class ThermalGeneratingUnit(GeneratingUnit):
     def setFossilFuels(self, value):
         for x in self._FossilFuels:
             x.ThermalGeneratingUnit = None
+        self._FossilFuels = []
         for y in value:
-            y._ThermalGeneratingUnit = self
-        self._FossilFuels = value
+            y.ThermalGeneratingUnit = self
 
     FossilFuels = property(getFossilFuels, setFossilFuels)
 
diff --git a/CIM14/IEC61970/Informative/InfCore/ModelingAuthority.py b/CIM14/IEC61970/Informative/InfCore/ModelingAuthority.py
index 0c0ba1c..fd47519 100644
--- a/CIM14/IEC61970/Informative/InfCore/ModelingAuthority.py
+++ b/CIM14/IEC61970/Informative/InfCore/ModelingAuthority.py
@@ -49,9 +49,9 @@ class ModelingAuthority(IdentifiedObject):
     def setModelingAuthoritySets(self, value):
         for x in self._ModelingAuthoritySets:
             x.ModelingAuthority = None
+        self._ModelingAuthoritySets = []
         for y in value:
-            y._ModelingAuthority = self
-        self._ModelingAuthoritySets = value
+            y.ModelingAuthority = self
 
     ModelingAuthoritySets = property(getModelingAuthoritySets, setModelingAuthoritySets)
 
diff --git a/CIM14/IEC61970/Informative/InfCore/ModelingAuthoritySet.py b/CIM14/IEC61970/Informative/InfCore/ModelingAuthoritySet.py
index f649c50..4acfda2 100644
--- a/CIM14/IEC61970/Informative/InfCore/ModelingAuthoritySet.py
+++ b/CIM14/IEC61970/Informative/InfCore/ModelingAuthoritySet.py
@@ -70,9 +70,9 @@ class ModelingAuthoritySet(IdentifiedObject):
     def setIdentifiedObjects(self, value):
         for x in self._IdentifiedObjects:
             x.ModelingAuthoritySet = None
+        self._IdentifiedObjects = []
         for y in value:
-            y._ModelingAuthoritySet = self
-        self._IdentifiedObjects = value
+            y.ModelingAuthoritySet = self
 
     IdentifiedObjects = property(getIdentifiedObjects, setIdentifiedObjects)
 
diff --git a/CIM14/IEC61970/LoadModel/ConformLoadGroup.py b/CIM14/IEC61970/LoadModel/ConformLoadGroup.py
index 8d8d955..734eefd 100644
--- a/CIM14/IEC61970/LoadModel/ConformLoadGroup.py
+++ b/CIM14/IEC61970/LoadModel/ConformLoadGroup.py
@@ -53,9 +53,9 @@ class ConformLoadGroup(LoadGroup):
     def setConformLoadSchedules(self, value):
         for x in self._ConformLoadSchedules:
             x.ConformLoadGroup = None
+        self._ConformLoadSchedules = []
         for y in value:
-            y._ConformLoadGroup = self
-        self._ConformLoadSchedules = value
+            y.ConformLoadGroup = self
 
     ConformLoadSchedules = property(getConformLoadSchedules, setConformLoadSchedules)
 
@@ -75,9 +75,9 @@ class ConformLoadGroup(LoadGroup):
     def setEnergyConsumers(self, value):
         for x in self._EnergyConsumers:
             x.LoadGroup = None
+        self._EnergyConsumers = []
         for y in value:
-            y._LoadGroup = self
-        self._EnergyConsumers = value
+            y.LoadGroup = self
 
     EnergyConsumers = property(getEnergyConsumers, setEnergyConsumers)
 
diff --git a/CIM14/IEC61970/LoadModel/DayType.py b/CIM14/IEC61970/LoadModel/DayType.py
index 6a62332..4dd4740 100644
--- a/CIM14/IEC61970/LoadModel/DayType.py
+++ b/CIM14/IEC61970/LoadModel/DayType.py
@@ -49,9 +49,9 @@ class DayType(IdentifiedObject):
     def setSeasonDayTypeSchedules(self, value):
         for x in self._SeasonDayTypeSchedules:
             x.DayType = None
+        self._SeasonDayTypeSchedules = []
         for y in value:
-            y._DayType = self
-        self._SeasonDayTypeSchedules = value
+            y.DayType = self
 
     SeasonDayTypeSchedules = property(getSeasonDayTypeSchedules, setSeasonDayTypeSchedules)
 
diff --git a/CIM14/IEC61970/LoadModel/LoadArea.py b/CIM14/IEC61970/LoadModel/LoadArea.py
index 9b4cbe8..ff97fc2 100644
--- a/CIM14/IEC61970/LoadModel/LoadArea.py
+++ b/CIM14/IEC61970/LoadModel/LoadArea.py
@@ -49,9 +49,9 @@ class LoadArea(EnergyArea):
     def setSubLoadAreas(self, value):
         for x in self._SubLoadAreas:
             x.LoadArea = None
+        self._SubLoadAreas = []
         for y in value:
-            y._LoadArea = self
-        self._SubLoadAreas = value
+            y.LoadArea = self
 
     SubLoadAreas = property(getSubLoadAreas, setSubLoadAreas)
 
diff --git a/CIM14/IEC61970/LoadModel/LoadResponseCharacteristic.py b/CIM14/IEC61970/LoadModel/LoadResponseCharacteristic.py
index 86c196e..6b18559 100644
--- a/CIM14/IEC61970/LoadModel/LoadResponseCharacteristic.py
+++ b/CIM14/IEC61970/LoadModel/LoadResponseCharacteristic.py
@@ -93,9 +93,9 @@ class LoadResponseCharacteristic(IdentifiedObject):
     def setEnergyConsumer(self, value):
         for x in self._EnergyConsumer:
             x.LoadResponse = None
+        self._EnergyConsumer = []
         for y in value:
-            y._LoadResponse = self
-        self._EnergyConsumer = value
+            y.LoadResponse = self
 
     EnergyConsumer = property(getEnergyConsumer, setEnergyConsumer)
 
diff --git a/CIM14/IEC61970/LoadModel/NonConformLoadGroup.py b/CIM14/IEC61970/LoadModel/NonConformLoadGroup.py
index 5f79fcd..da76798 100644
--- a/CIM14/IEC61970/LoadModel/NonConformLoadGroup.py
+++ b/CIM14/IEC61970/LoadModel/NonConformLoadGroup.py
@@ -53,9 +53,9 @@ class NonConformLoadGroup(LoadGroup):
     def setEnergyConsumers(self, value):
         for x in self._EnergyConsumers:
             x.LoadGroup = None
+        self._EnergyConsumers = []
         for y in value:
-            y._LoadGroup = self
-        self._EnergyConsumers = value
+            y.LoadGroup = self
 
     EnergyConsumers = property(getEnergyConsumers, setEnergyConsumers)
 
@@ -75,9 +75,9 @@ class NonConformLoadGroup(LoadGroup):
     def setNonConformLoadSchedules(self, value):
         for x in self._NonConformLoadSchedules:
             x.NonConformLoadGroup = None
+        self._NonConformLoadSchedules = []
         for y in value:
-            y._NonConformLoadGroup = self
-        self._NonConformLoadSchedules = value
+            y.NonConformLoadGroup = self
 
     NonConformLoadSchedules = property(getNonConformLoadSchedules, setNonConformLoadSchedules)
 
diff --git a/CIM14/IEC61970/LoadModel/PowerCutZone.py b/CIM14/IEC61970/LoadModel/PowerCutZone.py
index c53d739..bba4ee1 100644
--- a/CIM14/IEC61970/LoadModel/PowerCutZone.py
+++ b/CIM14/IEC61970/LoadModel/PowerCutZone.py
@@ -57,9 +57,9 @@ class PowerCutZone(PowerSystemResource):
     def setEnergyConsumers(self, value):
         for x in self._EnergyConsumers:
             x.PowerCutZone = None
+        self._EnergyConsumers = []
         for y in value:
-            y._PowerCutZone = self
-        self._EnergyConsumers = value
+            y.PowerCutZone = self
 
     EnergyConsumers = property(getEnergyConsumers, setEnergyConsumers)
 
diff --git a/CIM14/IEC61970/LoadModel/Season.py b/CIM14/IEC61970/LoadModel/Season.py
index e9988ae..af5e8ad 100644
--- a/CIM14/IEC61970/LoadModel/Season.py
+++ b/CIM14/IEC61970/LoadModel/Season.py
@@ -61,9 +61,9 @@ class Season(Element):
     def setSeasonDayTypeSchedules(self, value):
         for x in self._SeasonDayTypeSchedules:
             x.Season = None
+        self._SeasonDayTypeSchedules = []
         for y in value:
-            y._Season = self
-        self._SeasonDayTypeSchedules = value
+            y.Season = self
 
     SeasonDayTypeSchedules = property(getSeasonDayTypeSchedules, setSeasonDayTypeSchedules)
 
diff --git a/CIM14/IEC61970/LoadModel/SubLoadArea.py b/CIM14/IEC61970/LoadModel/SubLoadArea.py
index 83e4a4a..bfcd733 100644
--- a/CIM14/IEC61970/LoadModel/SubLoadArea.py
+++ b/CIM14/IEC61970/LoadModel/SubLoadArea.py
@@ -53,9 +53,9 @@ class SubLoadArea(EnergyArea):
     def setLoadGroups(self, value):
         for x in self._LoadGroups:
             x.SubLoadArea = None
+        self._LoadGroups = []
         for y in value:
-            y._SubLoadArea = self
-        self._LoadGroups = value
+            y.SubLoadArea = self
 
     LoadGroups = property(getLoadGroups, setLoadGroups)
 
diff --git a/CIM14/IEC61970/Meas/Accumulator.py b/CIM14/IEC61970/Meas/Accumulator.py
index c3a356e..ef51d8d 100644
--- a/CIM14/IEC61970/Meas/Accumulator.py
+++ b/CIM14/IEC61970/Meas/Accumulator.py
@@ -88,9 +88,9 @@ class Accumulator(Measurement):
     def setAccumulatorValues(self, value):
         for x in self._AccumulatorValues:
             x.Accumulator = None
+        self._AccumulatorValues = []
         for y in value:
-            y._Accumulator = self
-        self._AccumulatorValues = value
+            y.Accumulator = self
 
     AccumulatorValues = property(getAccumulatorValues, setAccumulatorValues)
 
diff --git a/CIM14/IEC61970/Meas/AccumulatorLimitSet.py b/CIM14/IEC61970/Meas/AccumulatorLimitSet.py
index 520c5e6..a9b43dc 100644
--- a/CIM14/IEC61970/Meas/AccumulatorLimitSet.py
+++ b/CIM14/IEC61970/Meas/AccumulatorLimitSet.py
@@ -84,9 +84,9 @@ class AccumulatorLimitSet(LimitSet):
     def setLimits(self, value):
         for x in self._Limits:
             x.LimitSet = None
+        self._Limits = []
         for y in value:
-            y._LimitSet = self
-        self._Limits = value
+            y.LimitSet = self
 
     Limits = property(getLimits, setLimits)
 
diff --git a/CIM14/IEC61970/Meas/Analog.py b/CIM14/IEC61970/Meas/Analog.py
index 43c45da..342b4f8 100644
--- a/CIM14/IEC61970/Meas/Analog.py
+++ b/CIM14/IEC61970/Meas/Analog.py
@@ -120,9 +120,9 @@ class Analog(Measurement):
     def setAnalogValues(self, value):
         for x in self._AnalogValues:
             x.Analog = None
+        self._AnalogValues = []
         for y in value:
-            y._Analog = self
-        self._AnalogValues = value
+            y.Analog = self
 
     AnalogValues = property(getAnalogValues, setAnalogValues)
 
diff --git a/CIM14/IEC61970/Meas/AnalogLimitSet.py b/CIM14/IEC61970/Meas/AnalogLimitSet.py
index 1a4eb4e..05d8db3 100644
--- a/CIM14/IEC61970/Meas/AnalogLimitSet.py
+++ b/CIM14/IEC61970/Meas/AnalogLimitSet.py
@@ -84,9 +84,9 @@ class AnalogLimitSet(LimitSet):
     def setLimits(self, value):
         for x in self._Limits:
             x.LimitSet = None
+        self._Limits = []
         for y in value:
-            y._LimitSet = self
-        self._Limits = value
+            y.LimitSet = self
 
     Limits = property(getLimits, setLimits)
 
diff --git a/CIM14/IEC61970/Meas/AnalogValue.py b/CIM14/IEC61970/Meas/AnalogValue.py
index 46e8171..94c2f58 100644
--- a/CIM14/IEC61970/Meas/AnalogValue.py
+++ b/CIM14/IEC61970/Meas/AnalogValue.py
@@ -61,9 +61,9 @@ class AnalogValue(MeasurementValue):
     def setAltTieMeas(self, value):
         for x in self._AltTieMeas:
             x.AnalogValue = None
+        self._AltTieMeas = []
         for y in value:
-            y._AnalogValue = self
-        self._AltTieMeas = value
+            y.AnalogValue = self
 
     AltTieMeas = property(getAltTieMeas, setAltTieMeas)
 
@@ -100,9 +100,9 @@ class AnalogValue(MeasurementValue):
     def setAltGeneratingUnit(self, value):
         for x in self._AltGeneratingUnit:
             x.AnalogValue = None
+        self._AltGeneratingUnit = []
         for y in value:
-            y._AnalogValue = self
-        self._AltGeneratingUnit = value
+            y.AnalogValue = self
 
     AltGeneratingUnit = property(getAltGeneratingUnit, setAltGeneratingUnit)
 
diff --git a/CIM14/IEC61970/Meas/ControlType.py b/CIM14/IEC61970/Meas/ControlType.py
index cf7b796..e1b2392 100644
--- a/CIM14/IEC61970/Meas/ControlType.py
+++ b/CIM14/IEC61970/Meas/ControlType.py
@@ -49,9 +49,9 @@ class ControlType(IdentifiedObject):
     def setControls(self, value):
         for x in self._Controls:
             x.ControlType = None
+        self._Controls = []
         for y in value:
-            y._ControlType = self
-        self._Controls = value
+            y.ControlType = self
 
     Controls = property(getControls, setControls)
 
diff --git a/CIM14/IEC61970/Meas/Discrete.py b/CIM14/IEC61970/Meas/Discrete.py
index ccb45b5..84e98e0 100644
--- a/CIM14/IEC61970/Meas/Discrete.py
+++ b/CIM14/IEC61970/Meas/Discrete.py
@@ -85,9 +85,9 @@ class Discrete(Measurement):
     def setDiscreteValues(self, value):
         for x in self._DiscreteValues:
             x.Discrete = None
+        self._DiscreteValues = []
         for y in value:
-            y._Discrete = self
-        self._DiscreteValues = value
+            y.Discrete = self
 
     DiscreteValues = property(getDiscreteValues, setDiscreteValues)
 
diff --git a/CIM14/IEC61970/Meas/Measurement.py b/CIM14/IEC61970/Meas/Measurement.py
index c759980..7409ae2 100644
--- a/CIM14/IEC61970/Meas/Measurement.py
+++ b/CIM14/IEC61970/Meas/Measurement.py
@@ -157,9 +157,9 @@ class Measurement(IdentifiedObject):
     def settieToMeasurement0(self, value):
         for x in self._tieToMeasurement0:
             x.measurement0 = None
+        self._tieToMeasurement0 = []
         for y in value:
-            y._measurement0 = self
-        self._tieToMeasurement0 = value
+            y.measurement0 = self
 
     tieToMeasurement0 = property(gettieToMeasurement0, settieToMeasurement0)
 
diff --git a/CIM14/IEC61970/Meas/MeasurementValueSource.py b/CIM14/IEC61970/Meas/MeasurementValueSource.py
index 7198d33..cfe65fa 100644
--- a/CIM14/IEC61970/Meas/MeasurementValueSource.py
+++ b/CIM14/IEC61970/Meas/MeasurementValueSource.py
@@ -49,9 +49,9 @@ class MeasurementValueSource(IdentifiedObject):
     def setMeasurementValues(self, value):
         for x in self._MeasurementValues:
             x.MeasurementValueSource = None
+        self._MeasurementValues = []
         for y in value:
-            y._MeasurementValueSource = self
-        self._MeasurementValues = value
+            y.MeasurementValueSource = self
 
     MeasurementValues = property(getMeasurementValues, setMeasurementValues)
 
diff --git a/CIM14/IEC61970/Meas/StringMeasurement.py b/CIM14/IEC61970/Meas/StringMeasurement.py
index c91d750..7eaf315 100644
--- a/CIM14/IEC61970/Meas/StringMeasurement.py
+++ b/CIM14/IEC61970/Meas/StringMeasurement.py
@@ -49,9 +49,9 @@ class StringMeasurement(Measurement):
     def setStringMeasurementValues(self, value):
         for x in self._StringMeasurementValues:
             x.StringMeasurement = None
+        self._StringMeasurementValues = []
         for y in value:
-            y._StringMeasurement = self
-        self._StringMeasurementValues = value
+            y.StringMeasurement = self
 
     StringMeasurementValues = property(getStringMeasurementValues, setStringMeasurementValues)
 
diff --git a/CIM14/IEC61970/Meas/ValueAliasSet.py b/CIM14/IEC61970/Meas/ValueAliasSet.py
index 5ec1c5d..cd32f69 100644
--- a/CIM14/IEC61970/Meas/ValueAliasSet.py
+++ b/CIM14/IEC61970/Meas/ValueAliasSet.py
@@ -57,9 +57,9 @@ class ValueAliasSet(IdentifiedObject):
     def setCommands(self, value):
         for x in self._Commands:
             x.ValueAliasSet = None
+        self._Commands = []
         for y in value:
-            y._ValueAliasSet = self
-        self._Commands = value
+            y.ValueAliasSet = self
 
     Commands = property(getCommands, setCommands)
 
@@ -79,9 +79,9 @@ class ValueAliasSet(IdentifiedObject):
     def setValues(self, value):
         for x in self._Values:
             x.ValueAliasSet = None
+        self._Values = []
         for y in value:
-            y._ValueAliasSet = self
-        self._Values = value
+            y.ValueAliasSet = self
 
     Values = property(getValues, setValues)
 
@@ -101,9 +101,9 @@ class ValueAliasSet(IdentifiedObject):
     def setDiscretes(self, value):
         for x in self._Discretes:
             x.ValueAliasSet = None
+        self._Discretes = []
         for y in value:
-            y._ValueAliasSet = self
-        self._Discretes = value
+            y.ValueAliasSet = self
 
     Discretes = property(getDiscretes, setDiscretes)
 
diff --git a/CIM14/IEC61970/OperationalLimits/BranchGroup.py b/CIM14/IEC61970/OperationalLimits/BranchGroup.py
index c7b02cf..030947f 100644
--- a/CIM14/IEC61970/OperationalLimits/BranchGroup.py
+++ b/CIM14/IEC61970/OperationalLimits/BranchGroup.py
@@ -73,9 +73,9 @@ class BranchGroup(IdentifiedObject):
     def setBranchGroupTerminal(self, value):
         for x in self._BranchGroupTerminal:
             x.BranchGroup = None
+        self._BranchGroupTerminal = []
         for y in value:
-            y._BranchGroup = self
-        self._BranchGroupTerminal = value
+            y.BranchGroup = self
 
     BranchGroupTerminal = property(getBranchGroupTerminal, setBranchGroupTerminal)
 
diff --git a/CIM14/IEC61970/OperationalLimits/OperationalLimitSet.py b/CIM14/IEC61970/OperationalLimits/OperationalLimitSet.py
index 963c8d3..5db0d61 100644
--- a/CIM14/IEC61970/OperationalLimits/OperationalLimitSet.py
+++ b/CIM14/IEC61970/OperationalLimits/OperationalLimitSet.py
@@ -91,9 +91,9 @@ class OperationalLimitSet(IdentifiedObject):
     def setOperationalLimitValue(self, value):
         for x in self._OperationalLimitValue:
             x.OperationalLimitSet = None
+        self._OperationalLimitValue = []
         for y in value:
-            y._OperationalLimitSet = self
-        self._OperationalLimitValue = value
+            y.OperationalLimitSet = self
 
     OperationalLimitValue = property(getOperationalLimitValue, setOperationalLimitValue)
 
diff --git a/CIM14/IEC61970/OperationalLimits/OperationalLimitType.py b/CIM14/IEC61970/OperationalLimits/OperationalLimitType.py
index 931af50..ba36298 100644
--- a/CIM14/IEC61970/OperationalLimits/OperationalLimitType.py
+++ b/CIM14/IEC61970/OperationalLimits/OperationalLimitType.py
@@ -57,9 +57,9 @@ class OperationalLimitType(IdentifiedObject):
     def setOperationalLimit(self, value):
         for x in self._OperationalLimit:
             x.OperationalLimitType = None
+        self._OperationalLimit = []
         for y in value:
-            y._OperationalLimitType = self
-        self._OperationalLimit = value
+            y.OperationalLimitType = self
 
     OperationalLimit = property(getOperationalLimit, setOperationalLimit)
 
diff --git a/CIM14/IEC61970/Outage/ClearanceTagType.py b/CIM14/IEC61970/Outage/ClearanceTagType.py
index 36c33af..8b2e323 100644
--- a/CIM14/IEC61970/Outage/ClearanceTagType.py
+++ b/CIM14/IEC61970/Outage/ClearanceTagType.py
@@ -49,9 +49,9 @@ class ClearanceTagType(IdentifiedObject):
     def setClearanceTags(self, value):
         for x in self._ClearanceTags:
             x.ClearanceTagType = None
+        self._ClearanceTags = []
         for y in value:
-            y._ClearanceTagType = self
-        self._ClearanceTags = value
+            y.ClearanceTagType = self
 
     ClearanceTags = property(getClearanceTags, setClearanceTags)
 
diff --git a/CIM14/IEC61970/Outage/OutageSchedule.py b/CIM14/IEC61970/Outage/OutageSchedule.py
index 46bd4a2..a56baa1 100644
--- a/CIM14/IEC61970/Outage/OutageSchedule.py
+++ b/CIM14/IEC61970/Outage/OutageSchedule.py
@@ -53,9 +53,9 @@ class OutageSchedule(IrregularIntervalSchedule):
     def setSwitchingOperations(self, value):
         for x in self._SwitchingOperations:
             x.OutageSchedule = None
+        self._SwitchingOperations = []
         for y in value:
-            y._OutageSchedule = self
-        self._SwitchingOperations = value
+            y.OutageSchedule = self
 
     SwitchingOperations = property(getSwitchingOperations, setSwitchingOperations)
 
diff --git a/CIM14/IEC61970/SCADA/RemoteUnit.py b/CIM14/IEC61970/SCADA/RemoteUnit.py
index fb675ad..eac4c63 100644
--- a/CIM14/IEC61970/SCADA/RemoteUnit.py
+++ b/CIM14/IEC61970/SCADA/RemoteUnit.py
@@ -88,9 +88,9 @@ class RemoteUnit(PowerSystemResource):
     def setRemotePoints(self, value):
         for x in self._RemotePoints:
             x.RemoteUnit = None
+        self._RemotePoints = []
         for y in value:
-            y._RemoteUnit = self
-        self._RemotePoints = value
+            y.RemoteUnit = self
 
     RemotePoints = property(getRemotePoints, setRemotePoints)
 
diff --git a/CIM14/IEC61970/StateVariables/TopologicalIsland.py b/CIM14/IEC61970/StateVariables/TopologicalIsland.py
index b59cbe6..b72ceb4 100644
--- a/CIM14/IEC61970/StateVariables/TopologicalIsland.py
+++ b/CIM14/IEC61970/StateVariables/TopologicalIsland.py
@@ -53,9 +53,9 @@ class TopologicalIsland(IdentifiedObject):
     def setTopologicalNodes(self, value):
         for x in self._TopologicalNodes:
             x.TopologicalIsland = None
+        self._TopologicalNodes = []
         for y in value:
-            y._TopologicalIsland = self
-        self._TopologicalNodes = value
+            y.TopologicalIsland = self
 
     TopologicalNodes = property(getTopologicalNodes, setTopologicalNodes)
 
diff --git a/CIM14/IEC61970/Topology/BusNameMarker.py b/CIM14/IEC61970/Topology/BusNameMarker.py
index 4ff17a2..cb1a873 100644
--- a/CIM14/IEC61970/Topology/BusNameMarker.py
+++ b/CIM14/IEC61970/Topology/BusNameMarker.py
@@ -70,9 +70,9 @@ class BusNameMarker(IdentifiedObject):
     def setConnectivityNode(self, value):
         for x in self._ConnectivityNode:
             x.BusNameMarker = None
+        self._ConnectivityNode = []
         for y in value:
-            y._BusNameMarker = self
-        self._ConnectivityNode = value
+            y.BusNameMarker = self
 
     ConnectivityNode = property(getConnectivityNode, setConnectivityNode)
 
diff --git a/CIM14/IEC61970/Topology/TopologicalNode.py b/CIM14/IEC61970/Topology/TopologicalNode.py
index f9c72f4..02bc6be 100644
--- a/CIM14/IEC61970/Topology/TopologicalNode.py
+++ b/CIM14/IEC61970/Topology/TopologicalNode.py
@@ -85,9 +85,9 @@ class TopologicalNode(IdentifiedObject):
     def setTerminal(self, value):
         for x in self._Terminal:
             x.TopologicalNode = None
+        self._Terminal = []
         for y in value:
-            y._TopologicalNode = self
-        self._Terminal = value
+            y.TopologicalNode = self
 
     Terminal = property(getTerminal, setTerminal)
 
@@ -141,9 +141,9 @@ class TopologicalNode(IdentifiedObject):
     def setConnectivityNodes(self, value):
         for x in self._ConnectivityNodes:
             x.TopologicalNode = None
+        self._ConnectivityNodes = []
         for y in value:
-            y._TopologicalNode = self
-        self._ConnectivityNodes = value
+            y.TopologicalNode = self
 
     ConnectivityNodes = property(getConnectivityNodes, setConnectivityNodes)
 
diff --git a/CIM14/IEC61970/Wires/CompositeSwitch.py b/CIM14/IEC61970/Wires/CompositeSwitch.py
index 281c5d0..5884ead 100644
--- a/CIM14/IEC61970/Wires/CompositeSwitch.py
+++ b/CIM14/IEC61970/Wires/CompositeSwitch.py
@@ -53,9 +53,9 @@ class CompositeSwitch(Equipment):
     def setSwitches(self, value):
         for x in self._Switches:
             x.CompositeSwitch = None
+        self._Switches = []
         for y in value:
-            y._CompositeSwitch = self
-        self._Switches = value
+            y.CompositeSwitch = self
 
     Switches = property(getSwitches, setSwitches)
 
diff --git a/CIM14/IEC61970/Wires/EnergyConsumer.py b/CIM14/IEC61970/Wires/EnergyConsumer.py
index 26a483a..674e171 100644
--- a/CIM14/IEC61970/Wires/EnergyConsumer.py
+++ b/CIM14/IEC61970/Wires/EnergyConsumer.py
@@ -127,9 +127,9 @@ class EnergyConsumer(ConductingEquipment):
     def setServiceDeliveryPoints(self, value):
         for x in self._ServiceDeliveryPoints:
             x.EnergyConsumer = None
+        self._ServiceDeliveryPoints = []
         for y in value:
-            y._EnergyConsumer = self
-        self._ServiceDeliveryPoints = value
+            y.EnergyConsumer = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
diff --git a/CIM14/IEC61970/Wires/PowerTransformer.py b/CIM14/IEC61970/Wires/PowerTransformer.py
index a81500f..80d86d8 100644
--- a/CIM14/IEC61970/Wires/PowerTransformer.py
+++ b/CIM14/IEC61970/Wires/PowerTransformer.py
@@ -65,9 +65,9 @@ class PowerTransformer(Equipment):
     def setTransformerWindings(self, value):
         for x in self._TransformerWindings:
             x.PowerTransformer = None
+        self._TransformerWindings = []
         for y in value:
-            y._PowerTransformer = self
-        self._TransformerWindings = value
+            y.PowerTransformer = self
 
     TransformerWindings = property(getTransformerWindings, setTransformerWindings)
 
diff --git a/CIM14/IEC61970/Wires/ProtectedSwitch.py b/CIM14/IEC61970/Wires/ProtectedSwitch.py
index f7dcfb8..15fb953 100644
--- a/CIM14/IEC61970/Wires/ProtectedSwitch.py
+++ b/CIM14/IEC61970/Wires/ProtectedSwitch.py
@@ -49,9 +49,9 @@ class ProtectedSwitch(Switch):
     def setRecloseSequences(self, value):
         for x in self._RecloseSequences:
             x.ProtectedSwitch = None
+        self._RecloseSequences = []
         for y in value:
-            y._ProtectedSwitch = self
-        self._RecloseSequences = value
+            y.ProtectedSwitch = self
 
     RecloseSequences = property(getRecloseSequences, setRecloseSequences)
 
diff --git a/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py b/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py
index 80814d2..6355553 100644
--- a/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py
+++ b/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py
@@ -61,9 +61,9 @@ class ReactiveCapabilityCurve(Curve):
     def setInitiallyUsedBySynchronousMachines(self, value):
         for x in self._InitiallyUsedBySynchronousMachines:
             x.InitialReactiveCapabilityCurve = None
+        self._InitiallyUsedBySynchronousMachines = []
         for y in value:
-            y._InitialReactiveCapabilityCurve = self
-        self._InitiallyUsedBySynchronousMachines = value
+            y.InitialReactiveCapabilityCurve = self
 
     InitiallyUsedBySynchronousMachines = property(getInitiallyUsedBySynchronousMachines, setInitiallyUsedBySynchronousMachines)
 
diff --git a/CIM14/IEC61970/Wires/RegulatingCondEq.py b/CIM14/IEC61970/Wires/RegulatingCondEq.py
index b73b6d4..96b26e8 100644
--- a/CIM14/IEC61970/Wires/RegulatingCondEq.py
+++ b/CIM14/IEC61970/Wires/RegulatingCondEq.py
@@ -53,9 +53,9 @@ class RegulatingCondEq(ConductingEquipment):
     def setControls(self, value):
         for x in self._Controls:
             x.RegulatingCondEq = None
+        self._Controls = []
         for y in value:
-            y._RegulatingCondEq = self
-        self._Controls = value
+            y.RegulatingCondEq = self
 
     Controls = property(getControls, setControls)
 
diff --git a/CIM14/IEC61970/Wires/RegulatingControl.py b/CIM14/IEC61970/Wires/RegulatingControl.py
index 8138045..7347767 100644
--- a/CIM14/IEC61970/Wires/RegulatingControl.py
+++ b/CIM14/IEC61970/Wires/RegulatingControl.py
@@ -77,9 +77,9 @@ class RegulatingControl(PowerSystemResource):
     def setRegulationSchedule(self, value):
         for x in self._RegulationSchedule:
             x.RegulatingControl = None
+        self._RegulationSchedule = []
         for y in value:
-            y._RegulatingControl = self
-        self._RegulationSchedule = value
+            y.RegulatingControl = self
 
     RegulationSchedule = property(getRegulationSchedule, setRegulationSchedule)
 
@@ -116,9 +116,9 @@ class RegulatingControl(PowerSystemResource):
     def setTapChanger(self, value):
         for x in self._TapChanger:
             x.RegulatingControl = None
+        self._TapChanger = []
         for y in value:
-            y._RegulatingControl = self
-        self._TapChanger = value
+            y.RegulatingControl = self
 
     TapChanger = property(getTapChanger, setTapChanger)
 
@@ -138,9 +138,9 @@ class RegulatingControl(PowerSystemResource):
     def setRegulatingCondEq(self, value):
         for x in self._RegulatingCondEq:
             x.RegulatingControl = None
+        self._RegulatingCondEq = []
         for y in value:
-            y._RegulatingControl = self
-        self._RegulatingCondEq = value
+            y.RegulatingControl = self
 
     RegulatingCondEq = property(getRegulatingCondEq, setRegulatingCondEq)
 
diff --git a/CIM14/IEC61970/Wires/RegulationSchedule.py b/CIM14/IEC61970/Wires/RegulationSchedule.py
index 2a5ed82..555a8e8 100644
--- a/CIM14/IEC61970/Wires/RegulationSchedule.py
+++ b/CIM14/IEC61970/Wires/RegulationSchedule.py
@@ -82,9 +82,9 @@ class RegulationSchedule(SeasonDayTypeSchedule):
     def setVoltageControlZones(self, value):
         for x in self._VoltageControlZones:
             x.RegulationSchedule = None
+        self._VoltageControlZones = []
         for y in value:
-            y._RegulationSchedule = self
-        self._VoltageControlZones = value
+            y.RegulationSchedule = self
 
     VoltageControlZones = property(getVoltageControlZones, setVoltageControlZones)
 
diff --git a/CIM14/IEC61970/Wires/Switch.py b/CIM14/IEC61970/Wires/Switch.py
index 96cc495..8ea4057 100644
--- a/CIM14/IEC61970/Wires/Switch.py
+++ b/CIM14/IEC61970/Wires/Switch.py
@@ -155,9 +155,9 @@ class Switch(ConductingEquipment):
     def setSwitchSchedules(self, value):
         for x in self._SwitchSchedules:
             x.Switch = None
+        self._SwitchSchedules = []
         for y in value:
-            y._Switch = self
-        self._SwitchSchedules = value
+            y.Switch = self
 
     SwitchSchedules = property(getSwitchSchedules, setSwitchSchedules)
 
diff --git a/CIM14/IEC61970/Wires/TapChanger.py b/CIM14/IEC61970/Wires/TapChanger.py
index 3509bac..de963a4 100644
--- a/CIM14/IEC61970/Wires/TapChanger.py
+++ b/CIM14/IEC61970/Wires/TapChanger.py
@@ -133,9 +133,9 @@ class TapChanger(PowerSystemResource):
     def setTapSchedules(self, value):
         for x in self._TapSchedules:
             x.TapChanger = None
+        self._TapSchedules = []
         for y in value:
-            y._TapChanger = self
-        self._TapSchedules = value
+            y.TapChanger = self
 
     TapSchedules = property(getTapSchedules, setTapSchedules)
 
diff --git a/CIM14/IEC61970/Wires/TransformerWinding.py b/CIM14/IEC61970/Wires/TransformerWinding.py
index ed41b0f..f59cc60 100644
--- a/CIM14/IEC61970/Wires/TransformerWinding.py
+++ b/CIM14/IEC61970/Wires/TransformerWinding.py
@@ -137,9 +137,9 @@ class TransformerWinding(ConductingEquipment):
     def setFrom_WindingTest(self, value):
         for x in self._From_WindingTest:
             x.From_TransformerWinding = None
+        self._From_WindingTest = []
         for y in value:
-            y._From_TransformerWinding = self
-        self._From_WindingTest = value
+            y.From_TransformerWinding = self
 
     From_WindingTest = property(getFrom_WindingTest, setFrom_WindingTest)
 
@@ -159,9 +159,9 @@ class TransformerWinding(ConductingEquipment):
     def setTo_WindingTest(self, value):
         for x in self._To_WindingTest:
             x.To_TransformerWinding = None
+        self._To_WindingTest = []
         for y in value:
-            y._To_TransformerWinding = self
-        self._To_WindingTest = value
+            y.To_TransformerWinding = self
 
     To_WindingTest = property(getTo_WindingTest, setTo_WindingTest)
 
diff --git a/CIM15/CDPSM/Asset/IEC61968/AssetModels/ConductorInfo.py b/CIM15/CDPSM/Asset/IEC61968/AssetModels/ConductorInfo.py
index 56f8957..2f9f81d 100644
--- a/CIM15/CDPSM/Asset/IEC61968/AssetModels/ConductorInfo.py
+++ b/CIM15/CDPSM/Asset/IEC61968/AssetModels/ConductorInfo.py
@@ -73,9 +73,9 @@ class ConductorInfo(AssetInfo):
     def setWireArrangements(self, value):
         for x in self._WireArrangements:
             x.ConductorInfo = None
+        self._WireArrangements = []
         for y in value:
-            y._ConductorInfo = self
-        self._WireArrangements = value
+            y.ConductorInfo = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
@@ -95,9 +95,9 @@ class ConductorInfo(AssetInfo):
     def setLineSegments(self, value):
         for x in self._LineSegments:
             x.ConductorInfo = None
+        self._LineSegments = []
         for y in value:
-            y._ConductorInfo = self
-        self._LineSegments = value
+            y.ConductorInfo = self
 
     LineSegments = property(getLineSegments, setLineSegments)
 
diff --git a/CIM15/CDPSM/Asset/IEC61968/AssetModels/PowerTransformerInfo.py b/CIM15/CDPSM/Asset/IEC61968/AssetModels/PowerTransformerInfo.py
index e7e8cf4..0e39397 100644
--- a/CIM15/CDPSM/Asset/IEC61968/AssetModels/PowerTransformerInfo.py
+++ b/CIM15/CDPSM/Asset/IEC61968/AssetModels/PowerTransformerInfo.py
@@ -49,9 +49,9 @@ class PowerTransformerInfo(AssetInfo):
     def setTransformerTankInfo(self, value):
         for x in self._TransformerTankInfo:
             x.PowerTransformerInfo = None
+        self._TransformerTankInfo = []
         for y in value:
-            y._PowerTransformerInfo = self
-        self._TransformerTankInfo = value
+            y.PowerTransformerInfo = self
 
     TransformerTankInfo = property(getTransformerTankInfo, setTransformerTankInfo)
 
diff --git a/CIM15/CDPSM/Asset/IEC61968/AssetModels/TransformerEndInfo.py b/CIM15/CDPSM/Asset/IEC61968/AssetModels/TransformerEndInfo.py
index 2e82751..fa66900 100644
--- a/CIM15/CDPSM/Asset/IEC61968/AssetModels/TransformerEndInfo.py
+++ b/CIM15/CDPSM/Asset/IEC61968/AssetModels/TransformerEndInfo.py
@@ -106,9 +106,9 @@ class TransformerEndInfo(AssetInfo):
     def setTransformerEnd(self, value):
         for x in self._TransformerEnd:
             x.TransformerEndInfo = None
+        self._TransformerEnd = []
         for y in value:
-            y._TransformerEndInfo = self
-        self._TransformerEnd = value
+            y.TransformerEndInfo = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
diff --git a/CIM15/CDPSM/Asset/IEC61968/AssetModels/TransformerTankInfo.py b/CIM15/CDPSM/Asset/IEC61968/AssetModels/TransformerTankInfo.py
index ca3caae..6d12bd2 100644
--- a/CIM15/CDPSM/Asset/IEC61968/AssetModels/TransformerTankInfo.py
+++ b/CIM15/CDPSM/Asset/IEC61968/AssetModels/TransformerTankInfo.py
@@ -74,9 +74,9 @@ class TransformerTankInfo(AssetInfo):
     def setTransformerEndInfos(self, value):
         for x in self._TransformerEndInfos:
             x.TransformerTankInfo = None
+        self._TransformerEndInfos = []
         for y in value:
-            y._TransformerTankInfo = self
-        self._TransformerEndInfos = value
+            y.TransformerTankInfo = self
 
     TransformerEndInfos = property(getTransformerEndInfos, setTransformerEndInfos)
 
@@ -96,9 +96,9 @@ class TransformerTankInfo(AssetInfo):
     def setTransformerTanks(self, value):
         for x in self._TransformerTanks:
             x.TransformerTankInfo = None
+        self._TransformerTanks = []
         for y in value:
-            y._TransformerTankInfo = self
-        self._TransformerTanks = value
+            y.TransformerTankInfo = self
 
     TransformerTanks = property(getTransformerTanks, setTransformerTanks)
 
diff --git a/CIM15/CDPSM/Asset/IEC61968/AssetModels/WireType.py b/CIM15/CDPSM/Asset/IEC61968/AssetModels/WireType.py
index bcf59b5..4254ad8 100644
--- a/CIM15/CDPSM/Asset/IEC61968/AssetModels/WireType.py
+++ b/CIM15/CDPSM/Asset/IEC61968/AssetModels/WireType.py
@@ -97,9 +97,9 @@ class WireType(IdentifiedObject):
     def setWireArrangements(self, value):
         for x in self._WireArrangements:
             x.WireType = None
+        self._WireArrangements = []
         for y in value:
-            y._WireType = self
-        self._WireArrangements = value
+            y.WireType = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
diff --git a/CIM15/CDPSM/Asset/IEC61970/Core/IdentifiedObject.py b/CIM15/CDPSM/Asset/IEC61970/Core/IdentifiedObject.py
index dfa2300..f9a12dc 100644
--- a/CIM15/CDPSM/Asset/IEC61970/Core/IdentifiedObject.py
+++ b/CIM15/CDPSM/Asset/IEC61970/Core/IdentifiedObject.py
@@ -57,9 +57,9 @@ class IdentifiedObject(Element):
     def setNames(self, value):
         for x in self._Names:
             x.IdentifiedObject = None
+        self._Names = []
         for y in value:
-            y._IdentifiedObject = self
-        self._Names = value
+            y.IdentifiedObject = self
 
     Names = property(getNames, setNames)
 
diff --git a/CIM15/CDPSM/Asset/IEC61970/Core/NameType.py b/CIM15/CDPSM/Asset/IEC61970/Core/NameType.py
index 32c62ea..9e36d97 100644
--- a/CIM15/CDPSM/Asset/IEC61970/Core/NameType.py
+++ b/CIM15/CDPSM/Asset/IEC61970/Core/NameType.py
@@ -49,9 +49,9 @@ class NameType(Element):
     def setNames(self, value):
         for x in self._Names:
             x.NameType = None
+        self._Names = []
         for y in value:
-            y._NameType = self
-        self._Names = value
+            y.NameType = self
 
     Names = property(getNames, setNames)
 
diff --git a/CIM15/CDPSM/Asset/IEC61970/Wires/PerLengthPhaseImpedance.py b/CIM15/CDPSM/Asset/IEC61970/Wires/PerLengthPhaseImpedance.py
index 0d63d89..5da0951 100644
--- a/CIM15/CDPSM/Asset/IEC61970/Wires/PerLengthPhaseImpedance.py
+++ b/CIM15/CDPSM/Asset/IEC61970/Wires/PerLengthPhaseImpedance.py
@@ -49,9 +49,9 @@ class PerLengthPhaseImpedance(IdentifiedObject):
     def setLineSegments(self, value):
         for x in self._LineSegments:
             x.PhaseImpedance = None
+        self._LineSegments = []
         for y in value:
-            y._PhaseImpedance = self
-        self._LineSegments = value
+            y.PhaseImpedance = self
 
     LineSegments = property(getLineSegments, setLineSegments)
 
diff --git a/CIM15/CDPSM/Asset/IEC61970/Wires/PerLengthSequenceImpedance.py b/CIM15/CDPSM/Asset/IEC61970/Wires/PerLengthSequenceImpedance.py
index f91eced..717abee 100644
--- a/CIM15/CDPSM/Asset/IEC61970/Wires/PerLengthSequenceImpedance.py
+++ b/CIM15/CDPSM/Asset/IEC61970/Wires/PerLengthSequenceImpedance.py
@@ -49,9 +49,9 @@ class PerLengthSequenceImpedance(IdentifiedObject):
     def setLineSegments(self, value):
         for x in self._LineSegments:
             x.SequenceImpedance = None
+        self._LineSegments = []
         for y in value:
-            y._SequenceImpedance = self
-        self._LineSegments = value
+            y.SequenceImpedance = self
 
     LineSegments = property(getLineSegments, setLineSegments)
 
diff --git a/CIM15/CDPSM/Asset/IEC61970/Wires/TransformerCoreAdmittance.py b/CIM15/CDPSM/Asset/IEC61970/Wires/TransformerCoreAdmittance.py
index d571e42..3313c28 100644
--- a/CIM15/CDPSM/Asset/IEC61970/Wires/TransformerCoreAdmittance.py
+++ b/CIM15/CDPSM/Asset/IEC61970/Wires/TransformerCoreAdmittance.py
@@ -47,9 +47,9 @@ class TransformerCoreAdmittance(IdentifiedObject):
     def setTransformerEnd(self, value):
         for x in self._TransformerEnd:
             x.CoreAdmittance = None
+        self._TransformerEnd = []
         for y in value:
-            y._CoreAdmittance = self
-        self._TransformerEnd = value
+            y.CoreAdmittance = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
diff --git a/CIM15/CDPSM/Asset/IEC61970/Wires/TransformerStarImpedance.py b/CIM15/CDPSM/Asset/IEC61970/Wires/TransformerStarImpedance.py
index f57fbc2..ec287dc 100644
--- a/CIM15/CDPSM/Asset/IEC61970/Wires/TransformerStarImpedance.py
+++ b/CIM15/CDPSM/Asset/IEC61970/Wires/TransformerStarImpedance.py
@@ -49,9 +49,9 @@ class TransformerStarImpedance(IdentifiedObject):
     def setTransformerEnd(self, value):
         for x in self._TransformerEnd:
             x.StarImpedance = None
+        self._TransformerEnd = []
         for y in value:
-            y._StarImpedance = self
-        self._TransformerEnd = value
+            y.StarImpedance = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Core/IdentifiedObject.py b/CIM15/CDPSM/Balanced/IEC61970/Core/IdentifiedObject.py
index 3893ebf..18d2a5e 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Core/IdentifiedObject.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Core/IdentifiedObject.py
@@ -57,9 +57,9 @@ class IdentifiedObject(Element):
     def setNames(self, value):
         for x in self._Names:
             x.IdentifiedObject = None
+        self._Names = []
         for y in value:
-            y._IdentifiedObject = self
-        self._Names = value
+            y.IdentifiedObject = self
 
     Names = property(getNames, setNames)
 
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Core/NameType.py b/CIM15/CDPSM/Balanced/IEC61970/Core/NameType.py
index 38d709e..619c7de 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Core/NameType.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Core/NameType.py
@@ -49,9 +49,9 @@ class NameType(Element):
     def setNames(self, value):
         for x in self._Names:
             x.NameType = None
+        self._Names = []
         for y in value:
-            y._NameType = self
-        self._Names = value
+            y.NameType = self
 
     Names = property(getNames, setNames)
 
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Generation/Production/GeneratingUnit.py b/CIM15/CDPSM/Balanced/IEC61970/Generation/Production/GeneratingUnit.py
index ff0f6e2..3db77ac 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Generation/Production/GeneratingUnit.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Generation/Production/GeneratingUnit.py
@@ -65,9 +65,9 @@ class GeneratingUnit(IdentifiedObject):
     def setSynchronousMachines(self, value):
         for x in self._SynchronousMachines:
             x.GeneratingUnit = None
+        self._SynchronousMachines = []
         for y in value:
-            y._GeneratingUnit = self
-        self._SynchronousMachines = value
+            y.GeneratingUnit = self
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
diff --git a/CIM15/CDPSM/Balanced/IEC61970/LoadModel/LoadResponseCharacteristic.py b/CIM15/CDPSM/Balanced/IEC61970/LoadModel/LoadResponseCharacteristic.py
index 760f3d3..6c4a300 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/LoadModel/LoadResponseCharacteristic.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/LoadModel/LoadResponseCharacteristic.py
@@ -93,9 +93,9 @@ class LoadResponseCharacteristic(IdentifiedObject):
     def setEnergyConsumer(self, value):
         for x in self._EnergyConsumer:
             x.LoadResponse = None
+        self._EnergyConsumer = []
         for y in value:
-            y._LoadResponse = self
-        self._EnergyConsumer = value
+            y.LoadResponse = self
 
     EnergyConsumer = property(getEnergyConsumer, setEnergyConsumer)
 
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerCoreAdmittance.py b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerCoreAdmittance.py
index 8fee8de..47311e3 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerCoreAdmittance.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerCoreAdmittance.py
@@ -63,9 +63,9 @@ class TransformerCoreAdmittance(IdentifiedObject):
     def setTransformerEnd(self, value):
         for x in self._TransformerEnd:
             x.CoreAdmittance = None
+        self._TransformerEnd = []
         for y in value:
-            y._CoreAdmittance = self
-        self._TransformerEnd = value
+            y.CoreAdmittance = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py
index 5ad8554..2d602c4 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py
@@ -61,9 +61,9 @@ class TransformerEnd(IdentifiedObject):
     def setFromMeshImpedance(self, value):
         for x in self._FromMeshImpedance:
             x.FromTransformerEnd = None
+        self._FromMeshImpedance = []
         for y in value:
-            y._FromTransformerEnd = self
-        self._FromMeshImpedance = value
+            y.FromTransformerEnd = self
 
     FromMeshImpedance = property(getFromMeshImpedance, setFromMeshImpedance)
 
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerStarImpedance.py b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerStarImpedance.py
index b70d91d..bd5156a 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerStarImpedance.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerStarImpedance.py
@@ -65,9 +65,9 @@ class TransformerStarImpedance(IdentifiedObject):
     def setTransformerEnd(self, value):
         for x in self._TransformerEnd:
             x.StarImpedance = None
+        self._TransformerEnd = []
         for y in value:
-            y._StarImpedance = self
-        self._TransformerEnd = value
+            y.StarImpedance = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/BaseVoltage.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/BaseVoltage.py
index 0c45353..33311cd 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/BaseVoltage.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/BaseVoltage.py
@@ -57,9 +57,9 @@ class BaseVoltage(IdentifiedObject):
     def setConductingEquipment(self, value):
         for x in self._ConductingEquipment:
             x.BaseVoltage = None
+        self._ConductingEquipment = []
         for y in value:
-            y._BaseVoltage = self
-        self._ConductingEquipment = value
+            y.BaseVoltage = self
 
     ConductingEquipment = property(getConductingEquipment, setConductingEquipment)
 
@@ -79,9 +79,9 @@ class BaseVoltage(IdentifiedObject):
     def setVoltageLevel(self, value):
         for x in self._VoltageLevel:
             x.BaseVoltage = None
+        self._VoltageLevel = []
         for y in value:
-            y._BaseVoltage = self
-        self._VoltageLevel = value
+            y.BaseVoltage = self
 
     VoltageLevel = property(getVoltageLevel, setVoltageLevel)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/ConductingEquipment.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/ConductingEquipment.py
index e2d4c05..262a478 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/ConductingEquipment.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/ConductingEquipment.py
@@ -49,9 +49,9 @@ class ConductingEquipment(Equipment):
     def setTerminals(self, value):
         for x in self._Terminals:
             x.ConductingEquipment = None
+        self._Terminals = []
         for y in value:
-            y._ConductingEquipment = self
-        self._Terminals = value
+            y.ConductingEquipment = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/ConnectivityNode.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/ConnectivityNode.py
index 9c66b8c..4868b64 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/ConnectivityNode.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/ConnectivityNode.py
@@ -70,9 +70,9 @@ class ConnectivityNode(IdentifiedObject):
     def setTerminals(self, value):
         for x in self._Terminals:
             x.ConnectivityNode = None
+        self._Terminals = []
         for y in value:
-            y._ConnectivityNode = self
-        self._Terminals = value
+            y.ConnectivityNode = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/ConnectivityNodeContainer.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/ConnectivityNodeContainer.py
index e95d8be..be8fe9f 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/ConnectivityNodeContainer.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/ConnectivityNodeContainer.py
@@ -49,9 +49,9 @@ class ConnectivityNodeContainer(PowerSystemResource):
     def setConnectivityNodes(self, value):
         for x in self._ConnectivityNodes:
             x.ConnectivityNodeContainer = None
+        self._ConnectivityNodes = []
         for y in value:
-            y._ConnectivityNodeContainer = self
-        self._ConnectivityNodes = value
+            y.ConnectivityNodeContainer = self
 
     ConnectivityNodes = property(getConnectivityNodes, setConnectivityNodes)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/EquipmentContainer.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/EquipmentContainer.py
index 8be3eac..239b7be 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/EquipmentContainer.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/EquipmentContainer.py
@@ -49,9 +49,9 @@ class EquipmentContainer(ConnectivityNodeContainer):
     def setEquipments(self, value):
         for x in self._Equipments:
             x.EquipmentContainer = None
+        self._Equipments = []
         for y in value:
-            y._EquipmentContainer = self
-        self._Equipments = value
+            y.EquipmentContainer = self
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/GeographicalRegion.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/GeographicalRegion.py
index f7daa15..eddb326 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/GeographicalRegion.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/GeographicalRegion.py
@@ -49,9 +49,9 @@ class GeographicalRegion(IdentifiedObject):
     def setRegions(self, value):
         for x in self._Regions:
             x.Region = None
+        self._Regions = []
         for y in value:
-            y._Region = self
-        self._Regions = value
+            y.Region = self
 
     Regions = property(getRegions, setRegions)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/IdentifiedObject.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/IdentifiedObject.py
index dd35e3d..977bf9b 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/IdentifiedObject.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/IdentifiedObject.py
@@ -57,9 +57,9 @@ class IdentifiedObject(Element):
     def setNames(self, value):
         for x in self._Names:
             x.IdentifiedObject = None
+        self._Names = []
         for y in value:
-            y._IdentifiedObject = self
-        self._Names = value
+            y.IdentifiedObject = self
 
     Names = property(getNames, setNames)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/NameType.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/NameType.py
index 9bab8a7..685083b 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/NameType.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/NameType.py
@@ -78,9 +78,9 @@ class NameType(Element):
     def setNames(self, value):
         for x in self._Names:
             x.NameType = None
+        self._Names = []
         for y in value:
-            y._NameType = self
-        self._Names = value
+            y.NameType = self
 
     Names = property(getNames, setNames)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/NameTypeAuthority.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/NameTypeAuthority.py
index fe5cf9d..56d29c5 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/NameTypeAuthority.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/NameTypeAuthority.py
@@ -57,9 +57,9 @@ class NameTypeAuthority(Element):
     def setNameTypes(self, value):
         for x in self._NameTypes:
             x.NameTypeAuthority = None
+        self._NameTypes = []
         for y in value:
-            y._NameTypeAuthority = self
-        self._NameTypes = value
+            y.NameTypeAuthority = self
 
     NameTypes = property(getNameTypes, setNameTypes)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/SubGeographicalRegion.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/SubGeographicalRegion.py
index bb4345c..f8e8990 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/SubGeographicalRegion.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/SubGeographicalRegion.py
@@ -57,9 +57,9 @@ class SubGeographicalRegion(IdentifiedObject):
     def setLines(self, value):
         for x in self._Lines:
             x.Region = None
+        self._Lines = []
         for y in value:
-            y._Region = self
-        self._Lines = value
+            y.Region = self
 
     Lines = property(getLines, setLines)
 
@@ -79,9 +79,9 @@ class SubGeographicalRegion(IdentifiedObject):
     def setSubstations(self, value):
         for x in self._Substations:
             x.Region = None
+        self._Substations = []
         for y in value:
-            y._Region = self
-        self._Substations = value
+            y.Region = self
 
     Substations = property(getSubstations, setSubstations)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/Substation.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/Substation.py
index b9d7959..6173c49 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/Substation.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/Substation.py
@@ -74,9 +74,9 @@ class Substation(EquipmentContainer):
     def setVoltageLevels(self, value):
         for x in self._VoltageLevels:
             x.Substation = None
+        self._VoltageLevels = []
         for y in value:
-            y._Substation = self
-        self._VoltageLevels = value
+            y.Substation = self
 
     VoltageLevels = property(getVoltageLevels, setVoltageLevels)
 
@@ -96,9 +96,9 @@ class Substation(EquipmentContainer):
     def setBays(self, value):
         for x in self._Bays:
             x.Substation = None
+        self._Bays = []
         for y in value:
-            y._Substation = self
-        self._Bays = value
+            y.Substation = self
 
     Bays = property(getBays, setBays)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/Terminal.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/Terminal.py
index d9ae7be..4c992db 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/Terminal.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/Terminal.py
@@ -78,9 +78,9 @@ class Terminal(IdentifiedObject):
     def setTransformerEnd(self, value):
         for x in self._TransformerEnd:
             x.Terminal = None
+        self._TransformerEnd = []
         for y in value:
-            y._Terminal = self
-        self._TransformerEnd = value
+            y.Terminal = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/VoltageLevel.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/VoltageLevel.py
index e3f83cf..04f0d73 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/VoltageLevel.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/VoltageLevel.py
@@ -65,9 +65,9 @@ class VoltageLevel(EquipmentContainer):
     def setBays(self, value):
         for x in self._Bays:
             x.VoltageLevel = None
+        self._Bays = []
         for y in value:
-            y._VoltageLevel = self
-        self._Bays = value
+            y.VoltageLevel = self
 
     Bays = property(getBays, setBays)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Wires/PowerTransformer.py b/CIM15/CDPSM/Connectivity/IEC61970/Wires/PowerTransformer.py
index dd9f5c7..aa2ee16 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Wires/PowerTransformer.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Wires/PowerTransformer.py
@@ -53,9 +53,9 @@ class PowerTransformer(ConductingEquipment):
     def setTransformerTanks(self, value):
         for x in self._TransformerTanks:
             x.PowerTransformer = None
+        self._TransformerTanks = []
         for y in value:
-            y._PowerTransformer = self
-        self._TransformerTanks = value
+            y.PowerTransformer = self
 
     TransformerTanks = property(getTransformerTanks, setTransformerTanks)
 
@@ -75,9 +75,9 @@ class PowerTransformer(ConductingEquipment):
     def setPowerTransformerEnd(self, value):
         for x in self._PowerTransformerEnd:
             x.PowerTransformer = None
+        self._PowerTransformerEnd = []
         for y in value:
-            y._PowerTransformer = self
-        self._PowerTransformerEnd = value
+            y.PowerTransformer = self
 
     PowerTransformerEnd = property(getPowerTransformerEnd, setPowerTransformerEnd)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Wires/TransformerTank.py b/CIM15/CDPSM/Connectivity/IEC61970/Wires/TransformerTank.py
index 5fb2d5a..d03c577 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Wires/TransformerTank.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Wires/TransformerTank.py
@@ -70,9 +70,9 @@ class TransformerTank(Equipment):
     def setTransformerTankEnds(self, value):
         for x in self._TransformerTankEnds:
             x.TransformerTank = None
+        self._TransformerTankEnds = []
         for y in value:
-            y._TransformerTank = self
-        self._TransformerTankEnds = value
+            y.TransformerTank = self
 
     TransformerTankEnds = property(getTransformerTankEnds, setTransformerTankEnds)
 
diff --git a/CIM15/CDPSM/Geographical/IEC61968/Common/CoordinateSystem.py b/CIM15/CDPSM/Geographical/IEC61968/Common/CoordinateSystem.py
index 5ee7ff5..20438f1 100644
--- a/CIM15/CDPSM/Geographical/IEC61968/Common/CoordinateSystem.py
+++ b/CIM15/CDPSM/Geographical/IEC61968/Common/CoordinateSystem.py
@@ -53,9 +53,9 @@ class CoordinateSystem(IdentifiedObject):
     def setLocation(self, value):
         for x in self._Location:
             x.CoordinateSystem = None
+        self._Location = []
         for y in value:
-            y._CoordinateSystem = self
-        self._Location = value
+            y.CoordinateSystem = self
 
     Location = property(getLocation, setLocation)
 
diff --git a/CIM15/CDPSM/Geographical/IEC61968/Common/Location.py b/CIM15/CDPSM/Geographical/IEC61968/Common/Location.py
index 91456ad..fad19c9 100644
--- a/CIM15/CDPSM/Geographical/IEC61968/Common/Location.py
+++ b/CIM15/CDPSM/Geographical/IEC61968/Common/Location.py
@@ -57,9 +57,9 @@ class Location(IdentifiedObject):
     def setPowerSystemResources(self, value):
         for x in self._PowerSystemResources:
             x.Location = None
+        self._PowerSystemResources = []
         for y in value:
-            y._Location = self
-        self._PowerSystemResources = value
+            y.Location = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
@@ -79,9 +79,9 @@ class Location(IdentifiedObject):
     def setPositionPoints(self, value):
         for x in self._PositionPoints:
             x.Location = None
+        self._PositionPoints = []
         for y in value:
-            y._Location = self
-        self._PositionPoints = value
+            y.Location = self
 
     PositionPoints = property(getPositionPoints, setPositionPoints)
 
diff --git a/CIM15/CDPSM/Geographical/IEC61970/Core/IdentifiedObject.py b/CIM15/CDPSM/Geographical/IEC61970/Core/IdentifiedObject.py
index 0b86c72..ab6b829 100644
--- a/CIM15/CDPSM/Geographical/IEC61970/Core/IdentifiedObject.py
+++ b/CIM15/CDPSM/Geographical/IEC61970/Core/IdentifiedObject.py
@@ -57,9 +57,9 @@ class IdentifiedObject(Element):
     def setNames(self, value):
         for x in self._Names:
             x.IdentifiedObject = None
+        self._Names = []
         for y in value:
-            y._IdentifiedObject = self
-        self._Names = value
+            y.IdentifiedObject = self
 
     Names = property(getNames, setNames)
 
diff --git a/CIM15/CDPSM/Geographical/IEC61970/Core/NameType.py b/CIM15/CDPSM/Geographical/IEC61970/Core/NameType.py
index 2d781d5..965599c 100644
--- a/CIM15/CDPSM/Geographical/IEC61970/Core/NameType.py
+++ b/CIM15/CDPSM/Geographical/IEC61970/Core/NameType.py
@@ -49,9 +49,9 @@ class NameType(Element):
     def setNames(self, value):
         for x in self._Names:
             x.NameType = None
+        self._Names = []
         for y in value:
-            y._NameType = self
-        self._Names = value
+            y.NameType = self
 
     Names = property(getNames, setNames)
 
diff --git a/CIM15/IEC61968/AssetModels/ConductorInfo.py b/CIM15/IEC61968/AssetModels/ConductorInfo.py
index 4f6c6de..22e3fa3 100644
--- a/CIM15/IEC61968/AssetModels/ConductorInfo.py
+++ b/CIM15/IEC61968/AssetModels/ConductorInfo.py
@@ -73,9 +73,9 @@ class ConductorInfo(AssetInfo):
     def setWireArrangements(self, value):
         for x in self._WireArrangements:
             x.ConductorInfo = None
+        self._WireArrangements = []
         for y in value:
-            y._ConductorInfo = self
-        self._WireArrangements = value
+            y.ConductorInfo = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
@@ -95,9 +95,9 @@ class ConductorInfo(AssetInfo):
     def setLineSegments(self, value):
         for x in self._LineSegments:
             x.ConductorInfo = None
+        self._LineSegments = []
         for y in value:
-            y._ConductorInfo = self
-        self._LineSegments = value
+            y.ConductorInfo = self
 
     LineSegments = property(getLineSegments, setLineSegments)
 
diff --git a/CIM15/IEC61968/AssetModels/EndDeviceInfo.py b/CIM15/IEC61968/AssetModels/EndDeviceInfo.py
index 261e83c..8513abb 100644
--- a/CIM15/IEC61968/AssetModels/EndDeviceInfo.py
+++ b/CIM15/IEC61968/AssetModels/EndDeviceInfo.py
@@ -61,9 +61,9 @@ class EndDeviceInfo(AssetInfo):
     def setEndDevices(self, value):
         for x in self._EndDevices:
             x.EndDeviceInfo = None
+        self._EndDevices = []
         for y in value:
-            y._EndDeviceInfo = self
-        self._EndDevices = value
+            y.EndDeviceInfo = self
 
     EndDevices = property(getEndDevices, setEndDevices)
 
diff --git a/CIM15/IEC61968/AssetModels/PowerTransformerInfo.py b/CIM15/IEC61968/AssetModels/PowerTransformerInfo.py
index 236231e..65266ae 100644
--- a/CIM15/IEC61968/AssetModels/PowerTransformerInfo.py
+++ b/CIM15/IEC61968/AssetModels/PowerTransformerInfo.py
@@ -53,9 +53,9 @@ class PowerTransformerInfo(AssetInfo):
     def setTransformerTankInfo(self, value):
         for x in self._TransformerTankInfo:
             x.PowerTransformerInfo = None
+        self._TransformerTankInfo = []
         for y in value:
-            y._PowerTransformerInfo = self
-        self._TransformerTankInfo = value
+            y.PowerTransformerInfo = self
 
     TransformerTankInfo = property(getTransformerTankInfo, setTransformerTankInfo)
 
@@ -75,9 +75,9 @@ class PowerTransformerInfo(AssetInfo):
     def setPowerTransformers(self, value):
         for x in self._PowerTransformers:
             x.PowerTransformerInfo = None
+        self._PowerTransformers = []
         for y in value:
-            y._PowerTransformerInfo = self
-        self._PowerTransformers = value
+            y.PowerTransformerInfo = self
 
     PowerTransformers = property(getPowerTransformers, setPowerTransformers)
 
diff --git a/CIM15/IEC61968/AssetModels/TapChangerInfo.py b/CIM15/IEC61968/AssetModels/TapChangerInfo.py
index e86dfba..8222770 100644
--- a/CIM15/IEC61968/AssetModels/TapChangerInfo.py
+++ b/CIM15/IEC61968/AssetModels/TapChangerInfo.py
@@ -109,9 +109,9 @@ class TapChangerInfo(AssetInfo):
     def setTapChangers(self, value):
         for x in self._TapChangers:
             x.TapChangerInfo = None
+        self._TapChangers = []
         for y in value:
-            y._TapChangerInfo = self
-        self._TapChangers = value
+            y.TapChangerInfo = self
 
     TapChangers = property(getTapChangers, setTapChangers)
 
diff --git a/CIM15/IEC61968/AssetModels/TransformerEndInfo.py b/CIM15/IEC61968/AssetModels/TransformerEndInfo.py
index a3bbc7d..eecfb07 100644
--- a/CIM15/IEC61968/AssetModels/TransformerEndInfo.py
+++ b/CIM15/IEC61968/AssetModels/TransformerEndInfo.py
@@ -121,9 +121,9 @@ class TransformerEndInfo(AssetInfo):
     def setFromMeshImpedance(self, value):
         for x in self._FromMeshImpedance:
             x.FromTransformerEndInfo = None
+        self._FromMeshImpedance = []
         for y in value:
-            y._FromTransformerEndInfo = self
-        self._FromMeshImpedance = value
+            y.FromTransformerEndInfo = self
 
     FromMeshImpedance = property(getFromMeshImpedance, setFromMeshImpedance)
 
@@ -143,9 +143,9 @@ class TransformerEndInfo(AssetInfo):
     def setEnergisedEndNoLoadTest(self, value):
         for x in self._EnergisedEndNoLoadTest:
             x.EnergisedEnd = None
+        self._EnergisedEndNoLoadTest = []
         for y in value:
-            y._EnergisedEnd = self
-        self._EnergisedEndNoLoadTest = value
+            y.EnergisedEnd = self
 
     EnergisedEndNoLoadTest = property(getEnergisedEndNoLoadTest, setEnergisedEndNoLoadTest)
 
@@ -165,9 +165,9 @@ class TransformerEndInfo(AssetInfo):
     def setOpenEndOpenCircuitTests(self, value):
         for x in self._OpenEndOpenCircuitTests:
             x.OpenEnd = None
+        self._OpenEndOpenCircuitTests = []
         for y in value:
-            y._OpenEnd = self
-        self._OpenEndOpenCircuitTests = value
+            y.OpenEnd = self
 
     OpenEndOpenCircuitTests = property(getOpenEndOpenCircuitTests, setOpenEndOpenCircuitTests)
 
@@ -218,9 +218,9 @@ class TransformerEndInfo(AssetInfo):
     def setTransformerEnd(self, value):
         for x in self._TransformerEnd:
             x.TransformerEndInfo = None
+        self._TransformerEnd = []
         for y in value:
-            y._TransformerEndInfo = self
-        self._TransformerEnd = value
+            y.TransformerEndInfo = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
@@ -257,9 +257,9 @@ class TransformerEndInfo(AssetInfo):
     def setEnergisedEndOpenCircuitTests(self, value):
         for x in self._EnergisedEndOpenCircuitTests:
             x.EnergisedEnd = None
+        self._EnergisedEndOpenCircuitTests = []
         for y in value:
-            y._EnergisedEnd = self
-        self._EnergisedEndOpenCircuitTests = value
+            y.EnergisedEnd = self
 
     EnergisedEndOpenCircuitTests = property(getEnergisedEndOpenCircuitTests, setEnergisedEndOpenCircuitTests)
 
@@ -310,9 +310,9 @@ class TransformerEndInfo(AssetInfo):
     def setEnergisedEndShortCircuitTests(self, value):
         for x in self._EnergisedEndShortCircuitTests:
             x.EnergisedEnd = None
+        self._EnergisedEndShortCircuitTests = []
         for y in value:
-            y._EnergisedEnd = self
-        self._EnergisedEndShortCircuitTests = value
+            y.EnergisedEnd = self
 
     EnergisedEndShortCircuitTests = property(getEnergisedEndShortCircuitTests, setEnergisedEndShortCircuitTests)
 
diff --git a/CIM15/IEC61968/AssetModels/TransformerTankInfo.py b/CIM15/IEC61968/AssetModels/TransformerTankInfo.py
index 8b8b54c..dd47551 100644
--- a/CIM15/IEC61968/AssetModels/TransformerTankInfo.py
+++ b/CIM15/IEC61968/AssetModels/TransformerTankInfo.py
@@ -64,9 +64,9 @@ class TransformerTankInfo(AssetInfo):
     def setTransformerAssets(self, value):
         for x in self._TransformerAssets:
             x.TransformerInfo = None
+        self._TransformerAssets = []
         for y in value:
-            y._TransformerInfo = self
-        self._TransformerAssets = value
+            y.TransformerInfo = self
 
     TransformerAssets = property(getTransformerAssets, setTransformerAssets)
 
@@ -86,9 +86,9 @@ class TransformerTankInfo(AssetInfo):
     def setTransformerEndInfos(self, value):
         for x in self._TransformerEndInfos:
             x.TransformerTankInfo = None
+        self._TransformerEndInfos = []
         for y in value:
-            y._TransformerTankInfo = self
-        self._TransformerEndInfos = value
+            y.TransformerTankInfo = self
 
     TransformerEndInfos = property(getTransformerEndInfos, setTransformerEndInfos)
 
@@ -124,9 +124,9 @@ class TransformerTankInfo(AssetInfo):
     def setTransformerAssetModels(self, value):
         for x in self._TransformerAssetModels:
             x.TransformerInfo = None
+        self._TransformerAssetModels = []
         for y in value:
-            y._TransformerInfo = self
-        self._TransformerAssetModels = value
+            y.TransformerInfo = self
 
     TransformerAssetModels = property(getTransformerAssetModels, setTransformerAssetModels)
 
@@ -146,9 +146,9 @@ class TransformerTankInfo(AssetInfo):
     def setTransformerTanks(self, value):
         for x in self._TransformerTanks:
             x.TransformerTankInfo = None
+        self._TransformerTanks = []
         for y in value:
-            y._TransformerTankInfo = self
-        self._TransformerTanks = value
+            y.TransformerTankInfo = self
 
     TransformerTanks = property(getTransformerTanks, setTransformerTanks)
 
diff --git a/CIM15/IEC61968/AssetModels/WireType.py b/CIM15/IEC61968/AssetModels/WireType.py
index ea46a5e..f9bca6e 100644
--- a/CIM15/IEC61968/AssetModels/WireType.py
+++ b/CIM15/IEC61968/AssetModels/WireType.py
@@ -101,9 +101,9 @@ class WireType(IdentifiedObject):
     def setWireArrangements(self, value):
         for x in self._WireArrangements:
             x.WireType = None
+        self._WireArrangements = []
         for y in value:
-            y._WireType = self
-        self._WireArrangements = value
+            y.WireType = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
@@ -123,9 +123,9 @@ class WireType(IdentifiedObject):
     def setConcentricNeutralCableInfos(self, value):
         for x in self._ConcentricNeutralCableInfos:
             x.WireType = None
+        self._ConcentricNeutralCableInfos = []
         for y in value:
-            y._WireType = self
-        self._ConcentricNeutralCableInfos = value
+            y.WireType = self
 
     ConcentricNeutralCableInfos = property(getConcentricNeutralCableInfos, setConcentricNeutralCableInfos)
 
diff --git a/CIM15/IEC61968/Assets/Asset.py b/CIM15/IEC61968/Assets/Asset.py
index 925affb..75c2192 100644
--- a/CIM15/IEC61968/Assets/Asset.py
+++ b/CIM15/IEC61968/Assets/Asset.py
@@ -193,9 +193,9 @@ class Asset(IdentifiedObject):
     def setDocumentRoles(self, value):
         for x in self._DocumentRoles:
             x.Asset = None
+        self._DocumentRoles = []
         for y in value:
-            y._Asset = self
-        self._DocumentRoles = value
+            y.Asset = self
 
     DocumentRoles = property(getDocumentRoles, setDocumentRoles)
 
@@ -305,9 +305,9 @@ class Asset(IdentifiedObject):
     def setToAssetRoles(self, value):
         for x in self._ToAssetRoles:
             x.FromAsset = None
+        self._ToAssetRoles = []
         for y in value:
-            y._FromAsset = self
-        self._ToAssetRoles = value
+            y.FromAsset = self
 
     ToAssetRoles = property(getToAssetRoles, setToAssetRoles)
 
@@ -329,9 +329,9 @@ class Asset(IdentifiedObject):
     def setFromAssetRoles(self, value):
         for x in self._FromAssetRoles:
             x.ToAsset = None
+        self._FromAssetRoles = []
         for y in value:
-            y._ToAsset = self
-        self._FromAssetRoles = value
+            y.ToAsset = self
 
     FromAssetRoles = property(getFromAssetRoles, setFromAssetRoles)
 
@@ -350,9 +350,9 @@ class Asset(IdentifiedObject):
     def setAssetFunctions(self, value):
         for x in self._AssetFunctions:
             x.Asset = None
+        self._AssetFunctions = []
         for y in value:
-            y._Asset = self
-        self._AssetFunctions = value
+            y.Asset = self
 
     AssetFunctions = property(getAssetFunctions, setAssetFunctions)
 
@@ -466,9 +466,9 @@ class Asset(IdentifiedObject):
     def setErpOrganisationRoles(self, value):
         for x in self._ErpOrganisationRoles:
             x.Asset = None
+        self._ErpOrganisationRoles = []
         for y in value:
-            y._Asset = self
-        self._ErpOrganisationRoles = value
+            y.Asset = self
 
     ErpOrganisationRoles = property(getErpOrganisationRoles, setErpOrganisationRoles)
 
@@ -563,9 +563,9 @@ class Asset(IdentifiedObject):
     def setChangeItems(self, value):
         for x in self._ChangeItems:
             x.Asset = None
+        self._ChangeItems = []
         for y in value:
-            y._Asset = self
-        self._ChangeItems = value
+            y.Asset = self
 
     ChangeItems = property(getChangeItems, setChangeItems)
 
@@ -712,9 +712,9 @@ class Asset(IdentifiedObject):
     def setMeasurements(self, value):
         for x in self._Measurements:
             x.Asset = None
+        self._Measurements = []
         for y in value:
-            y._Asset = self
-        self._Measurements = value
+            y.Asset = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM15/IEC61968/Assets/AssetContainer.py b/CIM15/IEC61968/Assets/AssetContainer.py
index e33d5b2..91628b9 100644
--- a/CIM15/IEC61968/Assets/AssetContainer.py
+++ b/CIM15/IEC61968/Assets/AssetContainer.py
@@ -57,9 +57,9 @@ class AssetContainer(Asset):
     def setSeals(self, value):
         for x in self._Seals:
             x.AssetContainer = None
+        self._Seals = []
         for y in value:
-            y._AssetContainer = self
-        self._Seals = value
+            y.AssetContainer = self
 
     Seals = property(getSeals, setSeals)
 
@@ -78,9 +78,9 @@ class AssetContainer(Asset):
     def setAssets(self, value):
         for x in self._Assets:
             x.AssetContainer = None
+        self._Assets = []
         for y in value:
-            y._AssetContainer = self
-        self._Assets = value
+            y.AssetContainer = self
 
     Assets = property(getAssets, setAssets)
 
diff --git a/CIM15/IEC61968/Assets/AssetModel.py b/CIM15/IEC61968/Assets/AssetModel.py
index 8894671..59438d1 100644
--- a/CIM15/IEC61968/Assets/AssetModel.py
+++ b/CIM15/IEC61968/Assets/AssetModel.py
@@ -68,9 +68,9 @@ class AssetModel(IdentifiedObject):
     def setErpInventoryCounts(self, value):
         for x in self._ErpInventoryCounts:
             x.AssetModel = None
+        self._ErpInventoryCounts = []
         for y in value:
-            y._AssetModel = self
-        self._ErpInventoryCounts = value
+            y.AssetModel = self
 
     ErpInventoryCounts = property(getErpInventoryCounts, setErpInventoryCounts)
 
diff --git a/CIM15/IEC61968/Assets/ProductAssetModel.py b/CIM15/IEC61968/Assets/ProductAssetModel.py
index 2440a22..4c10410 100644
--- a/CIM15/IEC61968/Assets/ProductAssetModel.py
+++ b/CIM15/IEC61968/Assets/ProductAssetModel.py
@@ -89,9 +89,9 @@ class ProductAssetModel(AssetModel):
     def setAssetModelCatalogueItems(self, value):
         for x in self._AssetModelCatalogueItems:
             x.AssetModel = None
+        self._AssetModelCatalogueItems = []
         for y in value:
-            y._AssetModel = self
-        self._AssetModelCatalogueItems = value
+            y.AssetModel = self
 
     AssetModelCatalogueItems = property(getAssetModelCatalogueItems, setAssetModelCatalogueItems)
 
diff --git a/CIM15/IEC61968/Common/CoordinateSystem.py b/CIM15/IEC61968/Common/CoordinateSystem.py
index 170339a..c5a5671 100644
--- a/CIM15/IEC61968/Common/CoordinateSystem.py
+++ b/CIM15/IEC61968/Common/CoordinateSystem.py
@@ -60,9 +60,9 @@ class CoordinateSystem(IdentifiedObject):
     def setDiagrams(self, value):
         for x in self._Diagrams:
             x.CoordinateSystem = None
+        self._Diagrams = []
         for y in value:
-            y._CoordinateSystem = self
-        self._Diagrams = value
+            y.CoordinateSystem = self
 
     Diagrams = property(getDiagrams, setDiagrams)
 
@@ -82,9 +82,9 @@ class CoordinateSystem(IdentifiedObject):
     def setLocation(self, value):
         for x in self._Location:
             x.CoordinateSystem = None
+        self._Location = []
         for y in value:
-            y._CoordinateSystem = self
-        self._Location = value
+            y.CoordinateSystem = self
 
     Location = property(getLocation, setLocation)
 
diff --git a/CIM15/IEC61968/Common/Document.py b/CIM15/IEC61968/Common/Document.py
index 1feab36..87d5ce6 100644
--- a/CIM15/IEC61968/Common/Document.py
+++ b/CIM15/IEC61968/Common/Document.py
@@ -129,9 +129,9 @@ class Document(IdentifiedObject):
     def setChangeItems(self, value):
         for x in self._ChangeItems:
             x.Document = None
+        self._ChangeItems = []
         for y in value:
-            y._Document = self
-        self._ChangeItems = value
+            y.Document = self
 
     ChangeItems = property(getChangeItems, setChangeItems)
 
@@ -150,9 +150,9 @@ class Document(IdentifiedObject):
     def setToDocumentRoles(self, value):
         for x in self._ToDocumentRoles:
             x.FromDocument = None
+        self._ToDocumentRoles = []
         for y in value:
-            y._FromDocument = self
-        self._ToDocumentRoles = value
+            y.FromDocument = self
 
     ToDocumentRoles = property(getToDocumentRoles, setToDocumentRoles)
 
@@ -204,9 +204,9 @@ class Document(IdentifiedObject):
     def setFromDocumentRoles(self, value):
         for x in self._FromDocumentRoles:
             x.ToDocument = None
+        self._FromDocumentRoles = []
         for y in value:
-            y._ToDocument = self
-        self._FromDocumentRoles = value
+            y.ToDocument = self
 
     FromDocumentRoles = property(getFromDocumentRoles, setFromDocumentRoles)
 
@@ -255,9 +255,9 @@ class Document(IdentifiedObject):
     def setErpOrganisationRoles(self, value):
         for x in self._ErpOrganisationRoles:
             x.Document = None
+        self._ErpOrganisationRoles = []
         for y in value:
-            y._Document = self
-        self._ErpOrganisationRoles = value
+            y.Document = self
 
     ErpOrganisationRoles = property(getErpOrganisationRoles, setErpOrganisationRoles)
 
@@ -368,9 +368,9 @@ class Document(IdentifiedObject):
     def setErpPersonRoles(self, value):
         for x in self._ErpPersonRoles:
             x.Document = None
+        self._ErpPersonRoles = []
         for y in value:
-            y._Document = self
-        self._ErpPersonRoles = value
+            y.Document = self
 
     ErpPersonRoles = property(getErpPersonRoles, setErpPersonRoles)
 
@@ -389,9 +389,9 @@ class Document(IdentifiedObject):
     def setScheduledEvents(self, value):
         for x in self._ScheduledEvents:
             x.Document = None
+        self._ScheduledEvents = []
         for y in value:
-            y._Document = self
-        self._ScheduledEvents = value
+            y.Document = self
 
     ScheduledEvents = property(getScheduledEvents, setScheduledEvents)
 
@@ -413,9 +413,9 @@ class Document(IdentifiedObject):
     def setAssetRoles(self, value):
         for x in self._AssetRoles:
             x.Document = None
+        self._AssetRoles = []
         for y in value:
-            y._Document = self
-        self._AssetRoles = value
+            y.Document = self
 
     AssetRoles = property(getAssetRoles, setAssetRoles)
 
@@ -437,9 +437,9 @@ class Document(IdentifiedObject):
     def setPowerSystemResourceRoles(self, value):
         for x in self._PowerSystemResourceRoles:
             x.Document = None
+        self._PowerSystemResourceRoles = []
         for y in value:
-            y._Document = self
-        self._PowerSystemResourceRoles = value
+            y.Document = self
 
     PowerSystemResourceRoles = property(getPowerSystemResourceRoles, setPowerSystemResourceRoles)
 
diff --git a/CIM15/IEC61968/Common/Location.py b/CIM15/IEC61968/Common/Location.py
index fda69a4..7208b3a 100644
--- a/CIM15/IEC61968/Common/Location.py
+++ b/CIM15/IEC61968/Common/Location.py
@@ -144,9 +144,9 @@ class Location(IdentifiedObject):
     def setPowerSystemResources(self, value):
         for x in self._PowerSystemResources:
             x.Location = None
+        self._PowerSystemResources = []
         for y in value:
-            y._Location = self
-        self._PowerSystemResources = value
+            y.Location = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
@@ -168,9 +168,9 @@ class Location(IdentifiedObject):
     def setChangeItems(self, value):
         for x in self._ChangeItems:
             x.Location = None
+        self._ChangeItems = []
         for y in value:
-            y._Location = self
-        self._ChangeItems = value
+            y.Location = self
 
     ChangeItems = property(getChangeItems, setChangeItems)
 
@@ -266,9 +266,9 @@ class Location(IdentifiedObject):
     def setAssets(self, value):
         for x in self._Assets:
             x.Location = None
+        self._Assets = []
         for y in value:
-            y._Location = self
-        self._Assets = value
+            y.Location = self
 
     Assets = property(getAssets, setAssets)
 
@@ -351,9 +351,9 @@ class Location(IdentifiedObject):
     def setPositionPoints(self, value):
         for x in self._PositionPoints:
             x.Location = None
+        self._PositionPoints = []
         for y in value:
-            y._Location = self
-        self._PositionPoints = value
+            y.Location = self
 
     PositionPoints = property(getPositionPoints, setPositionPoints)
 
@@ -375,9 +375,9 @@ class Location(IdentifiedObject):
     def setDirections(self, value):
         for x in self._Directions:
             x.Location = None
+        self._Directions = []
         for y in value:
-            y._Location = self
-        self._Directions = value
+            y.Location = self
 
     Directions = property(getDirections, setDirections)
 
diff --git a/CIM15/IEC61968/Common/TimePoint.py b/CIM15/IEC61968/Common/TimePoint.py
index 903d9ef..c19ac2c 100644
--- a/CIM15/IEC61968/Common/TimePoint.py
+++ b/CIM15/IEC61968/Common/TimePoint.py
@@ -93,9 +93,9 @@ class TimePoint(IdentifiedObject):
     def setScheduledEvents(self, value):
         for x in self._ScheduledEvents:
             x.TimePoint = None
+        self._ScheduledEvents = []
         for y in value:
-            y._TimePoint = self
-        self._ScheduledEvents = value
+            y.TimePoint = self
 
     ScheduledEvents = property(getScheduledEvents, setScheduledEvents)
 
diff --git a/CIM15/IEC61968/Common/TimeSchedule.py b/CIM15/IEC61968/Common/TimeSchedule.py
index 8ae5424..df81aa4 100644
--- a/CIM15/IEC61968/Common/TimeSchedule.py
+++ b/CIM15/IEC61968/Common/TimeSchedule.py
@@ -68,9 +68,9 @@ class TimeSchedule(Document):
     def setTimePoints(self, value):
         for x in self._TimePoints:
             x.TimeSchedule = None
+        self._TimePoints = []
         for y in value:
-            y._TimeSchedule = self
-        self._TimePoints = value
+            y.TimeSchedule = self
 
     TimePoints = property(getTimePoints, setTimePoints)
 
diff --git a/CIM15/IEC61968/Customers/Customer.py b/CIM15/IEC61968/Customers/Customer.py
index 4aacb88..24f6e0b 100644
--- a/CIM15/IEC61968/Customers/Customer.py
+++ b/CIM15/IEC61968/Customers/Customer.py
@@ -92,9 +92,9 @@ class Customer(Organisation):
     def setCustomerAgreements(self, value):
         for x in self._CustomerAgreements:
             x.Customer = None
+        self._CustomerAgreements = []
         for y in value:
-            y._Customer = self
-        self._CustomerAgreements = value
+            y.Customer = self
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
@@ -113,9 +113,9 @@ class Customer(Organisation):
     def setErpPersons(self, value):
         for x in self._ErpPersons:
             x.CustomerData = None
+        self._ErpPersons = []
         for y in value:
-            y._CustomerData = self
-        self._ErpPersons = value
+            y.CustomerData = self
 
     ErpPersons = property(getErpPersons, setErpPersons)
 
@@ -135,9 +135,9 @@ class Customer(Organisation):
     def setEndDevices(self, value):
         for x in self._EndDevices:
             x.Customer = None
+        self._EndDevices = []
         for y in value:
-            y._Customer = self
-        self._EndDevices = value
+            y.Customer = self
 
     EndDevices = property(getEndDevices, setEndDevices)
 
@@ -236,9 +236,9 @@ class Customer(Organisation):
     def setTroubleTickets(self, value):
         for x in self._TroubleTickets:
             x.CustomerData = None
+        self._TroubleTickets = []
         for y in value:
-            y._CustomerData = self
-        self._TroubleTickets = value
+            y.CustomerData = self
 
     TroubleTickets = property(getTroubleTickets, setTroubleTickets)
 
diff --git a/CIM15/IEC61968/Customers/CustomerAccount.py b/CIM15/IEC61968/Customers/CustomerAccount.py
index cd7c57a..3d18ba4 100644
--- a/CIM15/IEC61968/Customers/CustomerAccount.py
+++ b/CIM15/IEC61968/Customers/CustomerAccount.py
@@ -64,9 +64,9 @@ class CustomerAccount(Document):
     def setWorkBillingInfos(self, value):
         for x in self._WorkBillingInfos:
             x.CustomerAccount = None
+        self._WorkBillingInfos = []
         for y in value:
-            y._CustomerAccount = self
-        self._WorkBillingInfos = value
+            y.CustomerAccount = self
 
     WorkBillingInfos = property(getWorkBillingInfos, setWorkBillingInfos)
 
@@ -86,9 +86,9 @@ class CustomerAccount(Document):
     def setCustomerAgreements(self, value):
         for x in self._CustomerAgreements:
             x.CustomerAccount = None
+        self._CustomerAgreements = []
         for y in value:
-            y._CustomerAccount = self
-        self._CustomerAgreements = value
+            y.CustomerAccount = self
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
@@ -107,9 +107,9 @@ class CustomerAccount(Document):
     def setErpInvoicees(self, value):
         for x in self._ErpInvoicees:
             x.CustomerAccount = None
+        self._ErpInvoicees = []
         for y in value:
-            y._CustomerAccount = self
-        self._ErpInvoicees = value
+            y.CustomerAccount = self
 
     ErpInvoicees = property(getErpInvoicees, setErpInvoicees)
 
@@ -129,9 +129,9 @@ class CustomerAccount(Document):
     def setPaymentTransactions(self, value):
         for x in self._PaymentTransactions:
             x.CustomerAccount = None
+        self._PaymentTransactions = []
         for y in value:
-            y._CustomerAccount = self
-        self._PaymentTransactions = value
+            y.CustomerAccount = self
 
     PaymentTransactions = property(getPaymentTransactions, setPaymentTransactions)
 
@@ -150,9 +150,9 @@ class CustomerAccount(Document):
     def setCustomerBillingInfos(self, value):
         for x in self._CustomerBillingInfos:
             x.CustomerAccount = None
+        self._CustomerBillingInfos = []
         for y in value:
-            y._CustomerAccount = self
-        self._CustomerBillingInfos = value
+            y.CustomerAccount = self
 
     CustomerBillingInfos = property(getCustomerBillingInfos, setCustomerBillingInfos)
 
diff --git a/CIM15/IEC61968/Customers/CustomerAgreement.py b/CIM15/IEC61968/Customers/CustomerAgreement.py
index 3646d2e..35e289b 100644
--- a/CIM15/IEC61968/Customers/CustomerAgreement.py
+++ b/CIM15/IEC61968/Customers/CustomerAgreement.py
@@ -169,9 +169,9 @@ class CustomerAgreement(Agreement):
     def setAuxiliaryAgreements(self, value):
         for x in self._AuxiliaryAgreements:
             x.CustomerAgreement = None
+        self._AuxiliaryAgreements = []
         for y in value:
-            y._CustomerAgreement = self
-        self._AuxiliaryAgreements = value
+            y.CustomerAgreement = self
 
     AuxiliaryAgreements = property(getAuxiliaryAgreements, setAuxiliaryAgreements)
 
@@ -191,9 +191,9 @@ class CustomerAgreement(Agreement):
     def setMeterReadings(self, value):
         for x in self._MeterReadings:
             x.CustomerAgreement = None
+        self._MeterReadings = []
         for y in value:
-            y._CustomerAgreement = self
-        self._MeterReadings = value
+            y.CustomerAgreement = self
 
     MeterReadings = property(getMeterReadings, setMeterReadings)
 
@@ -308,9 +308,9 @@ class CustomerAgreement(Agreement):
     def setServiceDeliveryPoints(self, value):
         for x in self._ServiceDeliveryPoints:
             x.CustomerAgreement = None
+        self._ServiceDeliveryPoints = []
         for y in value:
-            y._CustomerAgreement = self
-        self._ServiceDeliveryPoints = value
+            y.CustomerAgreement = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
@@ -347,9 +347,9 @@ class CustomerAgreement(Agreement):
     def setEndDeviceControls(self, value):
         for x in self._EndDeviceControls:
             x.CustomerAgreement = None
+        self._EndDeviceControls = []
         for y in value:
-            y._CustomerAgreement = self
-        self._EndDeviceControls = value
+            y.CustomerAgreement = self
 
     EndDeviceControls = property(getEndDeviceControls, setEndDeviceControls)
 
diff --git a/CIM15/IEC61968/Customers/PricingStructure.py b/CIM15/IEC61968/Customers/PricingStructure.py
index 20cd228..826daf9 100644
--- a/CIM15/IEC61968/Customers/PricingStructure.py
+++ b/CIM15/IEC61968/Customers/PricingStructure.py
@@ -199,9 +199,9 @@ class PricingStructure(Document):
     def setTransactions(self, value):
         for x in self._Transactions:
             x.PricingStructure = None
+        self._Transactions = []
         for y in value:
-            y._PricingStructure = self
-        self._Transactions = value
+            y.PricingStructure = self
 
     Transactions = property(getTransactions, setTransactions)
 
diff --git a/CIM15/IEC61968/Customers/ServiceCategory.py b/CIM15/IEC61968/Customers/ServiceCategory.py
index bf961a9..26ddf35 100644
--- a/CIM15/IEC61968/Customers/ServiceCategory.py
+++ b/CIM15/IEC61968/Customers/ServiceCategory.py
@@ -57,9 +57,9 @@ class ServiceCategory(IdentifiedObject):
     def setPricingStructures(self, value):
         for x in self._PricingStructures:
             x.ServiceCategory = None
+        self._PricingStructures = []
         for y in value:
-            y._ServiceCategory = self
-        self._PricingStructures = value
+            y.ServiceCategory = self
 
     PricingStructures = property(getPricingStructures, setPricingStructures)
 
@@ -79,9 +79,9 @@ class ServiceCategory(IdentifiedObject):
     def setServiceDeliveryPoints(self, value):
         for x in self._ServiceDeliveryPoints:
             x.ServiceCategory = None
+        self._ServiceDeliveryPoints = []
         for y in value:
-            y._ServiceCategory = self
-        self._ServiceDeliveryPoints = value
+            y.ServiceCategory = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
diff --git a/CIM15/IEC61968/Customers/ServiceLocation.py b/CIM15/IEC61968/Customers/ServiceLocation.py
index b1dce7b..2e7cfa2 100644
--- a/CIM15/IEC61968/Customers/ServiceLocation.py
+++ b/CIM15/IEC61968/Customers/ServiceLocation.py
@@ -73,9 +73,9 @@ class ServiceLocation(Location):
     def setEndDevices(self, value):
         for x in self._EndDevices:
             x.ServiceLocation = None
+        self._EndDevices = []
         for y in value:
-            y._ServiceLocation = self
-        self._EndDevices = value
+            y.ServiceLocation = self
 
     EndDevices = property(getEndDevices, setEndDevices)
 
@@ -94,9 +94,9 @@ class ServiceLocation(Location):
     def setErpPersons(self, value):
         for x in self._ErpPersons:
             x.ServiceLocation = None
+        self._ErpPersons = []
         for y in value:
-            y._ServiceLocation = self
-        self._ErpPersons = value
+            y.ServiceLocation = self
 
     ErpPersons = property(getErpPersons, setErpPersons)
 
@@ -116,9 +116,9 @@ class ServiceLocation(Location):
     def setServiceDeliveryPoints(self, value):
         for x in self._ServiceDeliveryPoints:
             x.ServiceLocation = None
+        self._ServiceDeliveryPoints = []
         for y in value:
-            y._ServiceLocation = self
-        self._ServiceDeliveryPoints = value
+            y.ServiceLocation = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
diff --git a/CIM15/IEC61968/Metering/DemandResponseProgram.py b/CIM15/IEC61968/Metering/DemandResponseProgram.py
index 2de3836..6ad4a12 100644
--- a/CIM15/IEC61968/Metering/DemandResponseProgram.py
+++ b/CIM15/IEC61968/Metering/DemandResponseProgram.py
@@ -64,9 +64,9 @@ class DemandResponseProgram(IdentifiedObject):
     def setEndDeviceControls(self, value):
         for x in self._EndDeviceControls:
             x.DemandResponseProgram = None
+        self._EndDeviceControls = []
         for y in value:
-            y._DemandResponseProgram = self
-        self._EndDeviceControls = value
+            y.DemandResponseProgram = self
 
     EndDeviceControls = property(getEndDeviceControls, setEndDeviceControls)
 
@@ -89,9 +89,9 @@ class DemandResponseProgram(IdentifiedObject):
     def setCustomerAgreements(self, value):
         for x in self._CustomerAgreements:
             x.DemandResponseProgram = None
+        self._CustomerAgreements = []
         for y in value:
-            y._DemandResponseProgram = self
-        self._CustomerAgreements = value
+            y.DemandResponseProgram = self
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
@@ -111,9 +111,9 @@ class DemandResponseProgram(IdentifiedObject):
     def setEndDeviceGroups(self, value):
         for x in self._EndDeviceGroups:
             x.DemandResponseProgram = None
+        self._EndDeviceGroups = []
         for y in value:
-            y._DemandResponseProgram = self
-        self._EndDeviceGroups = value
+            y.DemandResponseProgram = self
 
     EndDeviceGroups = property(getEndDeviceGroups, setEndDeviceGroups)
 
diff --git a/CIM15/IEC61968/Metering/EndDevice.py b/CIM15/IEC61968/Metering/EndDevice.py
index 723f55b..da92b48 100644
--- a/CIM15/IEC61968/Metering/EndDevice.py
+++ b/CIM15/IEC61968/Metering/EndDevice.py
@@ -132,9 +132,9 @@ class EndDevice(AssetContainer):
     def setEndDeviceFunctions(self, value):
         for x in self._EndDeviceFunctions:
             x.EndDevice = None
+        self._EndDeviceFunctions = []
         for y in value:
-            y._EndDevice = self
-        self._EndDeviceFunctions = value
+            y.EndDevice = self
 
     EndDeviceFunctions = property(getEndDeviceFunctions, setEndDeviceFunctions)
 
@@ -154,9 +154,9 @@ class EndDevice(AssetContainer):
     def setEndDeviceControls(self, value):
         for x in self._EndDeviceControls:
             x.EndDevice = None
+        self._EndDeviceControls = []
         for y in value:
-            y._EndDevice = self
-        self._EndDeviceControls = value
+            y.EndDevice = self
 
     EndDeviceControls = property(getEndDeviceControls, setEndDeviceControls)
 
diff --git a/CIM15/IEC61968/Metering/EndDeviceFunction.py b/CIM15/IEC61968/Metering/EndDeviceFunction.py
index 79e5bf1..7598b90 100644
--- a/CIM15/IEC61968/Metering/EndDeviceFunction.py
+++ b/CIM15/IEC61968/Metering/EndDeviceFunction.py
@@ -69,9 +69,9 @@ class EndDeviceFunction(AssetFunction):
     def setRegisters(self, value):
         for x in self._Registers:
             x.EndDeviceFunction = None
+        self._Registers = []
         for y in value:
-            y._EndDeviceFunction = self
-        self._Registers = value
+            y.EndDeviceFunction = self
 
     Registers = property(getRegisters, setRegisters)
 
@@ -108,9 +108,9 @@ class EndDeviceFunction(AssetFunction):
     def setEndDeviceEvents(self, value):
         for x in self._EndDeviceEvents:
             x.EndDeviceFunction = None
+        self._EndDeviceEvents = []
         for y in value:
-            y._EndDeviceFunction = self
-        self._EndDeviceEvents = value
+            y.EndDeviceFunction = self
 
     EndDeviceEvents = property(getEndDeviceEvents, setEndDeviceEvents)
 
diff --git a/CIM15/IEC61968/Metering/EndDeviceGroup.py b/CIM15/IEC61968/Metering/EndDeviceGroup.py
index 1b61dcb..1135d84 100644
--- a/CIM15/IEC61968/Metering/EndDeviceGroup.py
+++ b/CIM15/IEC61968/Metering/EndDeviceGroup.py
@@ -61,9 +61,9 @@ class EndDeviceGroup(IdentifiedObject):
     def setEndDeviceControls(self, value):
         for x in self._EndDeviceControls:
             x.EndDeviceGroup = None
+        self._EndDeviceControls = []
         for y in value:
-            y._EndDeviceGroup = self
-        self._EndDeviceControls = value
+            y.EndDeviceGroup = self
 
     EndDeviceControls = property(getEndDeviceControls, setEndDeviceControls)
 
diff --git a/CIM15/IEC61968/Metering/IntervalReading.py b/CIM15/IEC61968/Metering/IntervalReading.py
index 1924063..fca39af 100644
--- a/CIM15/IEC61968/Metering/IntervalReading.py
+++ b/CIM15/IEC61968/Metering/IntervalReading.py
@@ -88,9 +88,9 @@ class IntervalReading(MeasurementValue):
     def setReadingQualities(self, value):
         for x in self._ReadingQualities:
             x.IntervalReading = None
+        self._ReadingQualities = []
         for y in value:
-            y._IntervalReading = self
-        self._ReadingQualities = value
+            y.IntervalReading = self
 
     ReadingQualities = property(getReadingQualities, setReadingQualities)
 
diff --git a/CIM15/IEC61968/Metering/Meter.py b/CIM15/IEC61968/Metering/Meter.py
index a7845ad..37da088 100644
--- a/CIM15/IEC61968/Metering/Meter.py
+++ b/CIM15/IEC61968/Metering/Meter.py
@@ -73,9 +73,9 @@ class Meter(EndDevice):
     def setMeterReplacementWorks(self, value):
         for x in self._MeterReplacementWorks:
             x.OldMeter = None
+        self._MeterReplacementWorks = []
         for y in value:
-            y._OldMeter = self
-        self._MeterReplacementWorks = value
+            y.OldMeter = self
 
     MeterReplacementWorks = property(getMeterReplacementWorks, setMeterReplacementWorks)
 
@@ -95,9 +95,9 @@ class Meter(EndDevice):
     def setMeterReadings(self, value):
         for x in self._MeterReadings:
             x.Meter = None
+        self._MeterReadings = []
         for y in value:
-            y._Meter = self
-        self._MeterReadings = value
+            y.Meter = self
 
     MeterReadings = property(getMeterReadings, setMeterReadings)
 
@@ -117,9 +117,9 @@ class Meter(EndDevice):
     def setMeterServiceWorks(self, value):
         for x in self._MeterServiceWorks:
             x.Meter = None
+        self._MeterServiceWorks = []
         for y in value:
-            y._Meter = self
-        self._MeterServiceWorks = value
+            y.Meter = self
 
     MeterServiceWorks = property(getMeterServiceWorks, setMeterServiceWorks)
 
@@ -139,9 +139,9 @@ class Meter(EndDevice):
     def setVendingTransactions(self, value):
         for x in self._VendingTransactions:
             x.Meter = None
+        self._VendingTransactions = []
         for y in value:
-            y._Meter = self
-        self._VendingTransactions = value
+            y.Meter = self
 
     VendingTransactions = property(getVendingTransactions, setVendingTransactions)
 
diff --git a/CIM15/IEC61968/Metering/MeterReading.py b/CIM15/IEC61968/Metering/MeterReading.py
index 6778d8f..bf4962d 100644
--- a/CIM15/IEC61968/Metering/MeterReading.py
+++ b/CIM15/IEC61968/Metering/MeterReading.py
@@ -92,9 +92,9 @@ class MeterReading(IdentifiedObject):
     def setEndDeviceEvents(self, value):
         for x in self._EndDeviceEvents:
             x.MeterReading = None
+        self._EndDeviceEvents = []
         for y in value:
-            y._MeterReading = self
-        self._EndDeviceEvents = value
+            y.MeterReading = self
 
     EndDeviceEvents = property(getEndDeviceEvents, setEndDeviceEvents)
 
@@ -179,9 +179,9 @@ class MeterReading(IdentifiedObject):
     def setIntervalBlocks(self, value):
         for x in self._IntervalBlocks:
             x.MeterReading = None
+        self._IntervalBlocks = []
         for y in value:
-            y._MeterReading = self
-        self._IntervalBlocks = value
+            y.MeterReading = self
 
     IntervalBlocks = property(getIntervalBlocks, setIntervalBlocks)
 
diff --git a/CIM15/IEC61968/Metering/PendingCalculation.py b/CIM15/IEC61968/Metering/PendingCalculation.py
index cbfede5..70a3359 100644
--- a/CIM15/IEC61968/Metering/PendingCalculation.py
+++ b/CIM15/IEC61968/Metering/PendingCalculation.py
@@ -73,9 +73,9 @@ class PendingCalculation(Element):
     def setIntervalBlocks(self, value):
         for x in self._IntervalBlocks:
             x.PendingCalculation = None
+        self._IntervalBlocks = []
         for y in value:
-            y._PendingCalculation = self
-        self._IntervalBlocks = value
+            y.PendingCalculation = self
 
     IntervalBlocks = property(getIntervalBlocks, setIntervalBlocks)
 
diff --git a/CIM15/IEC61968/Metering/Reading.py b/CIM15/IEC61968/Metering/Reading.py
index 34b62a3..27305f7 100644
--- a/CIM15/IEC61968/Metering/Reading.py
+++ b/CIM15/IEC61968/Metering/Reading.py
@@ -109,9 +109,9 @@ class Reading(MeasurementValue):
     def setReadingQualities(self, value):
         for x in self._ReadingQualities:
             x.Reading = None
+        self._ReadingQualities = []
         for y in value:
-            y._Reading = self
-        self._ReadingQualities = value
+            y.Reading = self
 
     ReadingQualities = property(getReadingQualities, setReadingQualities)
 
diff --git a/CIM15/IEC61968/Metering/ReadingType.py b/CIM15/IEC61968/Metering/ReadingType.py
index 8fc3b36..53113ce 100644
--- a/CIM15/IEC61968/Metering/ReadingType.py
+++ b/CIM15/IEC61968/Metering/ReadingType.py
@@ -96,9 +96,9 @@ class ReadingType(IdentifiedObject):
     def setIntervalBlocks(self, value):
         for x in self._IntervalBlocks:
             x.ReadingType = None
+        self._IntervalBlocks = []
         for y in value:
-            y._ReadingType = self
-        self._IntervalBlocks = value
+            y.ReadingType = self
 
     IntervalBlocks = property(getIntervalBlocks, setIntervalBlocks)
 
@@ -121,9 +121,9 @@ class ReadingType(IdentifiedObject):
     def setReadings(self, value):
         for x in self._Readings:
             x.ReadingType = None
+        self._Readings = []
         for y in value:
-            y._ReadingType = self
-        self._Readings = value
+            y.ReadingType = self
 
     Readings = property(getReadings, setReadings)
 
diff --git a/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py b/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py
index febfcea..82f1627 100644
--- a/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py
+++ b/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py
@@ -173,9 +173,9 @@ class ServiceDeliveryPoint(IdentifiedObject):
     def setEndDevices(self, value):
         for x in self._EndDevices:
             x.ServiceDeliveryPoint = None
+        self._EndDevices = []
         for y in value:
-            y._ServiceDeliveryPoint = self
-        self._EndDevices = value
+            y.ServiceDeliveryPoint = self
 
     EndDevices = property(getEndDevices, setEndDevices)
 
@@ -195,9 +195,9 @@ class ServiceDeliveryPoint(IdentifiedObject):
     def setMeterReadings(self, value):
         for x in self._MeterReadings:
             x.ServiceDeliveryPoint = None
+        self._MeterReadings = []
         for y in value:
-            y._ServiceDeliveryPoint = self
-        self._MeterReadings = value
+            y.ServiceDeliveryPoint = self
 
     MeterReadings = property(getMeterReadings, setMeterReadings)
 
diff --git a/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py b/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py
index 45202e4..4afc423 100644
--- a/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py
+++ b/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py
@@ -77,9 +77,9 @@ class AuxiliaryAccount(Document):
     def setPaymentTransactions(self, value):
         for x in self._PaymentTransactions:
             x.AuxiliaryAccount = None
+        self._PaymentTransactions = []
         for y in value:
-            y._AuxiliaryAccount = self
-        self._PaymentTransactions = value
+            y.AuxiliaryAccount = self
 
     PaymentTransactions = property(getPaymentTransactions, setPaymentTransactions)
 
diff --git a/CIM15/IEC61968/PaymentMetering/AuxiliaryAgreement.py b/CIM15/IEC61968/PaymentMetering/AuxiliaryAgreement.py
index ca85aa4..eef168b 100644
--- a/CIM15/IEC61968/PaymentMetering/AuxiliaryAgreement.py
+++ b/CIM15/IEC61968/PaymentMetering/AuxiliaryAgreement.py
@@ -110,9 +110,9 @@ class AuxiliaryAgreement(Agreement):
     def setAuxiliaryAccounts(self, value):
         for x in self._AuxiliaryAccounts:
             x.AuxiliaryAgreement = None
+        self._AuxiliaryAccounts = []
         for y in value:
-            y._AuxiliaryAgreement = self
-        self._AuxiliaryAccounts = value
+            y.AuxiliaryAgreement = self
 
     AuxiliaryAccounts = property(getAuxiliaryAccounts, setAuxiliaryAccounts)
 
diff --git a/CIM15/IEC61968/PaymentMetering/Cashier.py b/CIM15/IEC61968/PaymentMetering/Cashier.py
index 42a470a..2c79f69 100644
--- a/CIM15/IEC61968/PaymentMetering/Cashier.py
+++ b/CIM15/IEC61968/PaymentMetering/Cashier.py
@@ -55,9 +55,9 @@ class Cashier(IdentifiedObject):
     def setCashierShifts(self, value):
         for x in self._CashierShifts:
             x.Cashier = None
+        self._CashierShifts = []
         for y in value:
-            y._Cashier = self
-        self._CashierShifts = value
+            y.Cashier = self
 
     CashierShifts = property(getCashierShifts, setCashierShifts)
 
diff --git a/CIM15/IEC61968/PaymentMetering/CashierShift.py b/CIM15/IEC61968/PaymentMetering/CashierShift.py
index ad179e9..25161c8 100644
--- a/CIM15/IEC61968/PaymentMetering/CashierShift.py
+++ b/CIM15/IEC61968/PaymentMetering/CashierShift.py
@@ -64,9 +64,9 @@ class CashierShift(Shift):
     def setTransactions(self, value):
         for x in self._Transactions:
             x.CashierShift = None
+        self._Transactions = []
         for y in value:
-            y._CashierShift = self
-        self._Transactions = value
+            y.CashierShift = self
 
     Transactions = property(getTransactions, setTransactions)
 
@@ -103,9 +103,9 @@ class CashierShift(Shift):
     def setReceipts(self, value):
         for x in self._Receipts:
             x.CashierShift = None
+        self._Receipts = []
         for y in value:
-            y._CashierShift = self
-        self._Receipts = value
+            y.CashierShift = self
 
     Receipts = property(getReceipts, setReceipts)
 
diff --git a/CIM15/IEC61968/PaymentMetering/Charge.py b/CIM15/IEC61968/PaymentMetering/Charge.py
index df9c72e..3dc226c 100644
--- a/CIM15/IEC61968/PaymentMetering/Charge.py
+++ b/CIM15/IEC61968/PaymentMetering/Charge.py
@@ -169,9 +169,9 @@ class Charge(IdentifiedObject):
     def setChildCharges(self, value):
         for x in self._ChildCharges:
             x.ParentCharge = None
+        self._ChildCharges = []
         for y in value:
-            y._ParentCharge = self
-        self._ChildCharges = value
+            y.ParentCharge = self
 
     ChildCharges = property(getChildCharges, setChildCharges)
 
diff --git a/CIM15/IEC61968/PaymentMetering/MerchantAccount.py b/CIM15/IEC61968/PaymentMetering/MerchantAccount.py
index a449067..7b433a6 100644
--- a/CIM15/IEC61968/PaymentMetering/MerchantAccount.py
+++ b/CIM15/IEC61968/PaymentMetering/MerchantAccount.py
@@ -113,9 +113,9 @@ class MerchantAccount(Document):
     def setVendorShifts(self, value):
         for x in self._VendorShifts:
             x.MerchantAccount = None
+        self._VendorShifts = []
         for y in value:
-            y._MerchantAccount = self
-        self._VendorShifts = value
+            y.MerchantAccount = self
 
     VendorShifts = property(getVendorShifts, setVendorShifts)
 
diff --git a/CIM15/IEC61968/PaymentMetering/MerchantAgreement.py b/CIM15/IEC61968/PaymentMetering/MerchantAgreement.py
index ad7fb62..f2e47eb 100644
--- a/CIM15/IEC61968/PaymentMetering/MerchantAgreement.py
+++ b/CIM15/IEC61968/PaymentMetering/MerchantAgreement.py
@@ -49,9 +49,9 @@ class MerchantAgreement(Agreement):
     def setMerchantAccounts(self, value):
         for x in self._MerchantAccounts:
             x.MerchantAgreement = None
+        self._MerchantAccounts = []
         for y in value:
-            y._MerchantAgreement = self
-        self._MerchantAccounts = value
+            y.MerchantAgreement = self
 
     MerchantAccounts = property(getMerchantAccounts, setMerchantAccounts)
 
diff --git a/CIM15/IEC61968/PaymentMetering/PointOfSale.py b/CIM15/IEC61968/PaymentMetering/PointOfSale.py
index 38eb82c..936fed6 100644
--- a/CIM15/IEC61968/PaymentMetering/PointOfSale.py
+++ b/CIM15/IEC61968/PaymentMetering/PointOfSale.py
@@ -53,9 +53,9 @@ class PointOfSale(IdentifiedObject):
     def setCashierShifts(self, value):
         for x in self._CashierShifts:
             x.PointOfSale = None
+        self._CashierShifts = []
         for y in value:
-            y._PointOfSale = self
-        self._CashierShifts = value
+            y.PointOfSale = self
 
     CashierShifts = property(getCashierShifts, setCashierShifts)
 
diff --git a/CIM15/IEC61968/PaymentMetering/Receipt.py b/CIM15/IEC61968/PaymentMetering/Receipt.py
index ecae377..8e42cc4 100644
--- a/CIM15/IEC61968/PaymentMetering/Receipt.py
+++ b/CIM15/IEC61968/PaymentMetering/Receipt.py
@@ -105,9 +105,9 @@ class Receipt(IdentifiedObject):
     def setTenders(self, value):
         for x in self._Tenders:
             x.Receipt = None
+        self._Tenders = []
         for y in value:
-            y._Receipt = self
-        self._Tenders = value
+            y.Receipt = self
 
     Tenders = property(getTenders, setTenders)
 
@@ -127,9 +127,9 @@ class Receipt(IdentifiedObject):
     def setTransactions(self, value):
         for x in self._Transactions:
             x.Receipt = None
+        self._Transactions = []
         for y in value:
-            y._Receipt = self
-        self._Transactions = value
+            y.Receipt = self
 
     Transactions = property(getTransactions, setTransactions)
 
diff --git a/CIM15/IEC61968/PaymentMetering/ServiceSupplier.py b/CIM15/IEC61968/PaymentMetering/ServiceSupplier.py
index 0ccd5c7..e184cd3 100644
--- a/CIM15/IEC61968/PaymentMetering/ServiceSupplier.py
+++ b/CIM15/IEC61968/PaymentMetering/ServiceSupplier.py
@@ -65,9 +65,9 @@ class ServiceSupplier(Organisation):
     def setBankAccounts(self, value):
         for x in self._BankAccounts:
             x.ServiceSupplier = None
+        self._BankAccounts = []
         for y in value:
-            y._ServiceSupplier = self
-        self._BankAccounts = value
+            y.ServiceSupplier = self
 
     BankAccounts = property(getBankAccounts, setBankAccounts)
 
@@ -87,9 +87,9 @@ class ServiceSupplier(Organisation):
     def setServiceDeliveryPoints(self, value):
         for x in self._ServiceDeliveryPoints:
             x.ServiceSupplier = None
+        self._ServiceDeliveryPoints = []
         for y in value:
-            y._ServiceSupplier = self
-        self._ServiceDeliveryPoints = value
+            y.ServiceSupplier = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
@@ -109,9 +109,9 @@ class ServiceSupplier(Organisation):
     def setCustomerAgreements(self, value):
         for x in self._CustomerAgreements:
             x.ServiceSupplier = None
+        self._CustomerAgreements = []
         for y in value:
-            y._ServiceSupplier = self
-        self._CustomerAgreements = value
+            y.ServiceSupplier = self
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
diff --git a/CIM15/IEC61968/PaymentMetering/Transaction.py b/CIM15/IEC61968/PaymentMetering/Transaction.py
index 81fc405..6ded49e 100644
--- a/CIM15/IEC61968/PaymentMetering/Transaction.py
+++ b/CIM15/IEC61968/PaymentMetering/Transaction.py
@@ -128,9 +128,9 @@ class Transaction(IdentifiedObject):
     def setUserAttributes(self, value):
         for x in self._UserAttributes:
             x.Transaction = None
+        self._UserAttributes = []
         for y in value:
-            y._Transaction = self
-        self._UserAttributes = value
+            y.Transaction = self
 
     UserAttributes = property(getUserAttributes, setUserAttributes)
 
diff --git a/CIM15/IEC61968/PaymentMetering/Vendor.py b/CIM15/IEC61968/PaymentMetering/Vendor.py
index e8d58ee..1d0f064 100644
--- a/CIM15/IEC61968/PaymentMetering/Vendor.py
+++ b/CIM15/IEC61968/PaymentMetering/Vendor.py
@@ -49,9 +49,9 @@ class Vendor(IdentifiedObject):
     def setVendorShifts(self, value):
         for x in self._VendorShifts:
             x.Vendor = None
+        self._VendorShifts = []
         for y in value:
-            y._Vendor = self
-        self._VendorShifts = value
+            y.Vendor = self
 
     VendorShifts = property(getVendorShifts, setVendorShifts)
 
diff --git a/CIM15/IEC61968/PaymentMetering/VendorShift.py b/CIM15/IEC61968/PaymentMetering/VendorShift.py
index 00587ee..06181b8 100644
--- a/CIM15/IEC61968/PaymentMetering/VendorShift.py
+++ b/CIM15/IEC61968/PaymentMetering/VendorShift.py
@@ -85,9 +85,9 @@ class VendorShift(Shift):
     def setReceipts(self, value):
         for x in self._Receipts:
             x.VendorShift = None
+        self._Receipts = []
         for y in value:
-            y._VendorShift = self
-        self._Receipts = value
+            y.VendorShift = self
 
     Receipts = property(getReceipts, setReceipts)
 
@@ -123,9 +123,9 @@ class VendorShift(Shift):
     def setTransactions(self, value):
         for x in self._Transactions:
             x.VendorShift = None
+        self._Transactions = []
         for y in value:
-            y._VendorShift = self
-        self._Transactions = value
+            y.VendorShift = self
 
     Transactions = property(getTransactions, setTransactions)
 
diff --git a/CIM15/IEC61968/Work/Work.py b/CIM15/IEC61968/Work/Work.py
index c0a1350..ed2afa2 100644
--- a/CIM15/IEC61968/Work/Work.py
+++ b/CIM15/IEC61968/Work/Work.py
@@ -96,9 +96,9 @@ class Work(Document):
     def setDesigns(self, value):
         for x in self._Designs:
             x.Work = None
+        self._Designs = []
         for y in value:
-            y._Work = self
-        self._Designs = value
+            y.Work = self
 
     Designs = property(getDesigns, setDesigns)
 
@@ -179,9 +179,9 @@ class Work(Document):
     def setWorkFlowSteps(self, value):
         for x in self._WorkFlowSteps:
             x.Work = None
+        self._WorkFlowSteps = []
         for y in value:
-            y._Work = self
-        self._WorkFlowSteps = value
+            y.Work = self
 
     WorkFlowSteps = property(getWorkFlowSteps, setWorkFlowSteps)
 
@@ -200,9 +200,9 @@ class Work(Document):
     def setWorkTasks(self, value):
         for x in self._WorkTasks:
             x.Work = None
+        self._WorkTasks = []
         for y in value:
-            y._Work = self
-        self._WorkTasks = value
+            y.Work = self
 
     WorkTasks = property(getWorkTasks, setWorkTasks)
 
diff --git a/CIM15/IEC61970/Contingency/Contingency.py b/CIM15/IEC61970/Contingency/Contingency.py
index 44a2526..96fb243 100644
--- a/CIM15/IEC61970/Contingency/Contingency.py
+++ b/CIM15/IEC61970/Contingency/Contingency.py
@@ -53,9 +53,9 @@ class Contingency(IdentifiedObject):
     def setContingencyElement(self, value):
         for x in self._ContingencyElement:
             x.Contingency = None
+        self._ContingencyElement = []
         for y in value:
-            y._Contingency = self
-        self._ContingencyElement = value
+            y.Contingency = self
 
     ContingencyElement = property(getContingencyElement, setContingencyElement)
 
diff --git a/CIM15/IEC61970/ControlArea/ControlArea.py b/CIM15/IEC61970/ControlArea/ControlArea.py
index d75dd58..c719986 100644
--- a/CIM15/IEC61970/ControlArea/ControlArea.py
+++ b/CIM15/IEC61970/ControlArea/ControlArea.py
@@ -69,9 +69,9 @@ class ControlArea(PowerSystemResource):
     def setControlAreaGeneratingUnit(self, value):
         for x in self._ControlAreaGeneratingUnit:
             x.ControlArea = None
+        self._ControlAreaGeneratingUnit = []
         for y in value:
-            y._ControlArea = self
-        self._ControlAreaGeneratingUnit = value
+            y.ControlArea = self
 
     ControlAreaGeneratingUnit = property(getControlAreaGeneratingUnit, setControlAreaGeneratingUnit)
 
@@ -91,9 +91,9 @@ class ControlArea(PowerSystemResource):
     def setTieFlow(self, value):
         for x in self._TieFlow:
             x.ControlArea = None
+        self._TieFlow = []
         for y in value:
-            y._ControlArea = self
-        self._TieFlow = value
+            y.ControlArea = self
 
     TieFlow = property(getTieFlow, setTieFlow)
 
diff --git a/CIM15/IEC61970/ControlArea/ControlAreaGeneratingUnit.py b/CIM15/IEC61970/ControlArea/ControlAreaGeneratingUnit.py
index e27cbb8..e4fc07c 100644
--- a/CIM15/IEC61970/ControlArea/ControlAreaGeneratingUnit.py
+++ b/CIM15/IEC61970/ControlArea/ControlAreaGeneratingUnit.py
@@ -57,9 +57,9 @@ class ControlAreaGeneratingUnit(Element):
     def setAltGeneratingUnitMeas(self, value):
         for x in self._AltGeneratingUnitMeas:
             x.ControlAreaGeneratingUnit = None
+        self._AltGeneratingUnitMeas = []
         for y in value:
-            y._ControlAreaGeneratingUnit = self
-        self._AltGeneratingUnitMeas = value
+            y.ControlAreaGeneratingUnit = self
 
     AltGeneratingUnitMeas = property(getAltGeneratingUnitMeas, setAltGeneratingUnitMeas)
 
diff --git a/CIM15/IEC61970/ControlArea/TieFlow.py b/CIM15/IEC61970/ControlArea/TieFlow.py
index 9ae2278..88a008a 100644
--- a/CIM15/IEC61970/ControlArea/TieFlow.py
+++ b/CIM15/IEC61970/ControlArea/TieFlow.py
@@ -61,9 +61,9 @@ class TieFlow(Element):
     def setAltTieMeas(self, value):
         for x in self._AltTieMeas:
             x.TieFlow = None
+        self._AltTieMeas = []
         for y in value:
-            y._TieFlow = self
-        self._AltTieMeas = value
+            y.TieFlow = self
 
     AltTieMeas = property(getAltTieMeas, setAltTieMeas)
 
diff --git a/CIM15/IEC61970/Core/BaseVoltage.py b/CIM15/IEC61970/Core/BaseVoltage.py
index 3b877ee..b9d9d40 100644
--- a/CIM15/IEC61970/Core/BaseVoltage.py
+++ b/CIM15/IEC61970/Core/BaseVoltage.py
@@ -68,9 +68,9 @@ class BaseVoltage(IdentifiedObject):
     def setTopologicalNode(self, value):
         for x in self._TopologicalNode:
             x.BaseVoltage = None
+        self._TopologicalNode = []
         for y in value:
-            y._BaseVoltage = self
-        self._TopologicalNode = value
+            y.BaseVoltage = self
 
     TopologicalNode = property(getTopologicalNode, setTopologicalNode)
 
@@ -90,9 +90,9 @@ class BaseVoltage(IdentifiedObject):
     def setVoltageLevel(self, value):
         for x in self._VoltageLevel:
             x.BaseVoltage = None
+        self._VoltageLevel = []
         for y in value:
-            y._BaseVoltage = self
-        self._VoltageLevel = value
+            y.BaseVoltage = self
 
     VoltageLevel = property(getVoltageLevel, setVoltageLevel)
 
@@ -112,9 +112,9 @@ class BaseVoltage(IdentifiedObject):
     def setConductingEquipment(self, value):
         for x in self._ConductingEquipment:
             x.BaseVoltage = None
+        self._ConductingEquipment = []
         for y in value:
-            y._BaseVoltage = self
-        self._ConductingEquipment = value
+            y.BaseVoltage = self
 
     ConductingEquipment = property(getConductingEquipment, setConductingEquipment)
 
@@ -132,9 +132,9 @@ class BaseVoltage(IdentifiedObject):
     def setTransformerEnd(self, value):
         for x in self._TransformerEnd:
             x.BaseVoltage = None
+        self._TransformerEnd = []
         for y in value:
-            y._BaseVoltage = self
-        self._TransformerEnd = value
+            y.BaseVoltage = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
diff --git a/CIM15/IEC61970/Core/ConductingEquipment.py b/CIM15/IEC61970/Core/ConductingEquipment.py
index 896bf2d..47ab129 100644
--- a/CIM15/IEC61970/Core/ConductingEquipment.py
+++ b/CIM15/IEC61970/Core/ConductingEquipment.py
@@ -86,9 +86,9 @@ class ConductingEquipment(Equipment):
     def setClearanceTags(self, value):
         for x in self._ClearanceTags:
             x.ConductingEquipment = None
+        self._ClearanceTags = []
         for y in value:
-            y._ConductingEquipment = self
-        self._ClearanceTags = value
+            y.ConductingEquipment = self
 
     ClearanceTags = property(getClearanceTags, setClearanceTags)
 
@@ -139,9 +139,9 @@ class ConductingEquipment(Equipment):
     def setTerminals(self, value):
         for x in self._Terminals:
             x.ConductingEquipment = None
+        self._Terminals = []
         for y in value:
-            y._ConductingEquipment = self
-        self._Terminals = value
+            y.ConductingEquipment = self
 
     Terminals = property(getTerminals, setTerminals)
 
@@ -160,9 +160,9 @@ class ConductingEquipment(Equipment):
     def setOutageStepRoles(self, value):
         for x in self._OutageStepRoles:
             x.ConductingEquipment = None
+        self._OutageStepRoles = []
         for y in value:
-            y._ConductingEquipment = self
-        self._OutageStepRoles = value
+            y.ConductingEquipment = self
 
     OutageStepRoles = property(getOutageStepRoles, setOutageStepRoles)
 
diff --git a/CIM15/IEC61970/Core/ConnectivityNode.py b/CIM15/IEC61970/Core/ConnectivityNode.py
index 05c9a3b..bc300b3 100644
--- a/CIM15/IEC61970/Core/ConnectivityNode.py
+++ b/CIM15/IEC61970/Core/ConnectivityNode.py
@@ -91,9 +91,9 @@ class ConnectivityNode(IdentifiedObject):
     def setTerminals(self, value):
         for x in self._Terminals:
             x.ConnectivityNode = None
+        self._Terminals = []
         for y in value:
-            y._ConnectivityNode = self
-        self._Terminals = value
+            y.ConnectivityNode = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM15/IEC61970/Core/ConnectivityNodeContainer.py b/CIM15/IEC61970/Core/ConnectivityNodeContainer.py
index 7f0b7bd..19d570d 100644
--- a/CIM15/IEC61970/Core/ConnectivityNodeContainer.py
+++ b/CIM15/IEC61970/Core/ConnectivityNodeContainer.py
@@ -53,9 +53,9 @@ class ConnectivityNodeContainer(PowerSystemResource):
     def setTopologicalNode(self, value):
         for x in self._TopologicalNode:
             x.ConnectivityNodeContainer = None
+        self._TopologicalNode = []
         for y in value:
-            y._ConnectivityNodeContainer = self
-        self._TopologicalNode = value
+            y.ConnectivityNodeContainer = self
 
     TopologicalNode = property(getTopologicalNode, setTopologicalNode)
 
@@ -75,9 +75,9 @@ class ConnectivityNodeContainer(PowerSystemResource):
     def setConnectivityNodes(self, value):
         for x in self._ConnectivityNodes:
             x.ConnectivityNodeContainer = None
+        self._ConnectivityNodes = []
         for y in value:
-            y._ConnectivityNodeContainer = self
-        self._ConnectivityNodes = value
+            y.ConnectivityNodeContainer = self
 
     ConnectivityNodes = property(getConnectivityNodes, setConnectivityNodes)
 
diff --git a/CIM15/IEC61970/Core/Curve.py b/CIM15/IEC61970/Core/Curve.py
index 4439804..f63f5c5 100644
--- a/CIM15/IEC61970/Core/Curve.py
+++ b/CIM15/IEC61970/Core/Curve.py
@@ -85,9 +85,9 @@ class Curve(IdentifiedObject):
     def setCurveDatas(self, value):
         for x in self._CurveDatas:
             x.Curve = None
+        self._CurveDatas = []
         for y in value:
-            y._Curve = self
-        self._CurveDatas = value
+            y.Curve = self
 
     CurveDatas = property(getCurveDatas, setCurveDatas)
 
diff --git a/CIM15/IEC61970/Core/Equipment.py b/CIM15/IEC61970/Core/Equipment.py
index 054f5c8..59191fb 100644
--- a/CIM15/IEC61970/Core/Equipment.py
+++ b/CIM15/IEC61970/Core/Equipment.py
@@ -70,9 +70,9 @@ class Equipment(PowerSystemResource):
     def setContingencyEquipment(self, value):
         for x in self._ContingencyEquipment:
             x.Equipment = None
+        self._ContingencyEquipment = []
         for y in value:
-            y._Equipment = self
-        self._ContingencyEquipment = value
+            y.Equipment = self
 
     ContingencyEquipment = property(getContingencyEquipment, setContingencyEquipment)
 
@@ -139,9 +139,9 @@ class Equipment(PowerSystemResource):
     def setOperationalLimitSet(self, value):
         for x in self._OperationalLimitSet:
             x.Equipment = None
+        self._OperationalLimitSet = []
         for y in value:
-            y._Equipment = self
-        self._OperationalLimitSet = value
+            y.Equipment = self
 
     OperationalLimitSet = property(getOperationalLimitSet, setOperationalLimitSet)
 
diff --git a/CIM15/IEC61970/Core/EquipmentContainer.py b/CIM15/IEC61970/Core/EquipmentContainer.py
index 33c2ff4..753a199 100644
--- a/CIM15/IEC61970/Core/EquipmentContainer.py
+++ b/CIM15/IEC61970/Core/EquipmentContainer.py
@@ -49,9 +49,9 @@ class EquipmentContainer(ConnectivityNodeContainer):
     def setEquipments(self, value):
         for x in self._Equipments:
             x.EquipmentContainer = None
+        self._Equipments = []
         for y in value:
-            y._EquipmentContainer = self
-        self._Equipments = value
+            y.EquipmentContainer = self
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM15/IEC61970/Core/GeographicalRegion.py b/CIM15/IEC61970/Core/GeographicalRegion.py
index f5a1253..788e7ae 100644
--- a/CIM15/IEC61970/Core/GeographicalRegion.py
+++ b/CIM15/IEC61970/Core/GeographicalRegion.py
@@ -49,9 +49,9 @@ class GeographicalRegion(IdentifiedObject):
     def setRegions(self, value):
         for x in self._Regions:
             x.Region = None
+        self._Regions = []
         for y in value:
-            y._Region = self
-        self._Regions = value
+            y.Region = self
 
     Regions = property(getRegions, setRegions)
 
diff --git a/CIM15/IEC61970/Core/IdentifiedObject.py b/CIM15/IEC61970/Core/IdentifiedObject.py
index 5e18244..b576d32 100644
--- a/CIM15/IEC61970/Core/IdentifiedObject.py
+++ b/CIM15/IEC61970/Core/IdentifiedObject.py
@@ -69,9 +69,9 @@ class IdentifiedObject(Element):
     def setNames(self, value):
         for x in self._Names:
             x.IdentifiedObject = None
+        self._Names = []
         for y in value:
-            y._IdentifiedObject = self
-        self._Names = value
+            y.IdentifiedObject = self
 
     Names = property(getNames, setNames)
 
@@ -91,9 +91,9 @@ class IdentifiedObject(Element):
     def setDiagramObjects(self, value):
         for x in self._DiagramObjects:
             x.IdentifiedObject = None
+        self._DiagramObjects = []
         for y in value:
-            y._IdentifiedObject = self
-        self._DiagramObjects = value
+            y.IdentifiedObject = self
 
     DiagramObjects = property(getDiagramObjects, setDiagramObjects)
 
diff --git a/CIM15/IEC61970/Core/IrregularIntervalSchedule.py b/CIM15/IEC61970/Core/IrregularIntervalSchedule.py
index 4a5749d..92050eb 100644
--- a/CIM15/IEC61970/Core/IrregularIntervalSchedule.py
+++ b/CIM15/IEC61970/Core/IrregularIntervalSchedule.py
@@ -49,9 +49,9 @@ class IrregularIntervalSchedule(BasicIntervalSchedule):
     def setTimePoints(self, value):
         for x in self._TimePoints:
             x.IntervalSchedule = None
+        self._TimePoints = []
         for y in value:
-            y._IntervalSchedule = self
-        self._TimePoints = value
+            y.IntervalSchedule = self
 
     TimePoints = property(getTimePoints, setTimePoints)
 
diff --git a/CIM15/IEC61970/Core/NameType.py b/CIM15/IEC61970/Core/NameType.py
index e0408f1..ebd08f1 100644
--- a/CIM15/IEC61970/Core/NameType.py
+++ b/CIM15/IEC61970/Core/NameType.py
@@ -61,9 +61,9 @@ class NameType(Element):
     def setNames(self, value):
         for x in self._Names:
             x.NameType = None
+        self._Names = []
         for y in value:
-            y._NameType = self
-        self._Names = value
+            y.NameType = self
 
     Names = property(getNames, setNames)
 
diff --git a/CIM15/IEC61970/Core/NameTypeAuthority.py b/CIM15/IEC61970/Core/NameTypeAuthority.py
index 82d5768..be18149 100644
--- a/CIM15/IEC61970/Core/NameTypeAuthority.py
+++ b/CIM15/IEC61970/Core/NameTypeAuthority.py
@@ -57,9 +57,9 @@ class NameTypeAuthority(Element):
     def setNameTypes(self, value):
         for x in self._NameTypes:
             x.NameTypeAuthority = None
+        self._NameTypes = []
         for y in value:
-            y._NameTypeAuthority = self
-        self._NameTypes = value
+            y.NameTypeAuthority = self
 
     NameTypes = property(getNameTypes, setNameTypes)
 
diff --git a/CIM15/IEC61970/Core/OperatingParticipant.py b/CIM15/IEC61970/Core/OperatingParticipant.py
index b445e28..67dca57 100644
--- a/CIM15/IEC61970/Core/OperatingParticipant.py
+++ b/CIM15/IEC61970/Core/OperatingParticipant.py
@@ -49,9 +49,9 @@ class OperatingParticipant(IdentifiedObject):
     def setOperatingShare(self, value):
         for x in self._OperatingShare:
             x.OperatingParticipant = None
+        self._OperatingShare = []
         for y in value:
-            y._OperatingParticipant = self
-        self._OperatingShare = value
+            y.OperatingParticipant = self
 
     OperatingShare = property(getOperatingShare, setOperatingShare)
 
diff --git a/CIM15/IEC61970/Core/PSRType.py b/CIM15/IEC61970/Core/PSRType.py
index 519ba76..b1b6cff 100644
--- a/CIM15/IEC61970/Core/PSRType.py
+++ b/CIM15/IEC61970/Core/PSRType.py
@@ -49,9 +49,9 @@ class PSRType(IdentifiedObject):
     def setPowerSystemResources(self, value):
         for x in self._PowerSystemResources:
             x.PSRType = None
+        self._PowerSystemResources = []
         for y in value:
-            y._PSRType = self
-        self._PowerSystemResources = value
+            y.PSRType = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM15/IEC61970/Core/PowerSystemResource.py b/CIM15/IEC61970/Core/PowerSystemResource.py
index 51a74c5..b2e6805 100644
--- a/CIM15/IEC61970/Core/PowerSystemResource.py
+++ b/CIM15/IEC61970/Core/PowerSystemResource.py
@@ -104,9 +104,9 @@ class PowerSystemResource(IdentifiedObject):
     def setChangeItems(self, value):
         for x in self._ChangeItems:
             x.PowerSystemResource = None
+        self._ChangeItems = []
         for y in value:
-            y._PowerSystemResource = self
-        self._ChangeItems = value
+            y.PowerSystemResource = self
 
     ChangeItems = property(getChangeItems, setChangeItems)
 
@@ -155,9 +155,9 @@ class PowerSystemResource(IdentifiedObject):
     def setSafetyDocuments(self, value):
         for x in self._SafetyDocuments:
             x.PowerSystemResource = None
+        self._SafetyDocuments = []
         for y in value:
-            y._PowerSystemResource = self
-        self._SafetyDocuments = value
+            y.PowerSystemResource = self
 
     SafetyDocuments = property(getSafetyDocuments, setSafetyDocuments)
 
@@ -177,9 +177,9 @@ class PowerSystemResource(IdentifiedObject):
     def setOperatingShare(self, value):
         for x in self._OperatingShare:
             x.PowerSystemResource = None
+        self._OperatingShare = []
         for y in value:
-            y._PowerSystemResource = self
-        self._OperatingShare = value
+            y.PowerSystemResource = self
 
     OperatingShare = property(getOperatingShare, setOperatingShare)
 
@@ -198,9 +198,9 @@ class PowerSystemResource(IdentifiedObject):
     def setDocumentRoles(self, value):
         for x in self._DocumentRoles:
             x.PowerSystemResource = None
+        self._DocumentRoles = []
         for y in value:
-            y._PowerSystemResource = self
-        self._DocumentRoles = value
+            y.PowerSystemResource = self
 
     DocumentRoles = property(getDocumentRoles, setDocumentRoles)
 
@@ -250,9 +250,9 @@ class PowerSystemResource(IdentifiedObject):
     def setMeasurements(self, value):
         for x in self._Measurements:
             x.PowerSystemResource = None
+        self._Measurements = []
         for y in value:
-            y._PowerSystemResource = self
-        self._Measurements = value
+            y.PowerSystemResource = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
@@ -350,9 +350,9 @@ class PowerSystemResource(IdentifiedObject):
     def setErpOrganisationRoles(self, value):
         for x in self._ErpOrganisationRoles:
             x.PowerSystemResource = None
+        self._ErpOrganisationRoles = []
         for y in value:
-            y._PowerSystemResource = self
-        self._ErpOrganisationRoles = value
+            y.PowerSystemResource = self
 
     ErpOrganisationRoles = property(getErpOrganisationRoles, setErpOrganisationRoles)
 
@@ -389,9 +389,9 @@ class PowerSystemResource(IdentifiedObject):
     def setPSREvent(self, value):
         for x in self._PSREvent:
             x.PowerSystemResource = None
+        self._PSREvent = []
         for y in value:
-            y._PowerSystemResource = self
-        self._PSREvent = value
+            y.PowerSystemResource = self
 
     PSREvent = property(getPSREvent, setPSREvent)
 
diff --git a/CIM15/IEC61970/Core/RegularIntervalSchedule.py b/CIM15/IEC61970/Core/RegularIntervalSchedule.py
index ade581b..cf81223 100644
--- a/CIM15/IEC61970/Core/RegularIntervalSchedule.py
+++ b/CIM15/IEC61970/Core/RegularIntervalSchedule.py
@@ -57,9 +57,9 @@ class RegularIntervalSchedule(BasicIntervalSchedule):
     def setTimePoints(self, value):
         for x in self._TimePoints:
             x.IntervalSchedule = None
+        self._TimePoints = []
         for y in value:
-            y._IntervalSchedule = self
-        self._TimePoints = value
+            y.IntervalSchedule = self
 
     TimePoints = property(getTimePoints, setTimePoints)
 
diff --git a/CIM15/IEC61970/Core/ReportingGroup.py b/CIM15/IEC61970/Core/ReportingGroup.py
index 2b92b3d..f310db6 100644
--- a/CIM15/IEC61970/Core/ReportingGroup.py
+++ b/CIM15/IEC61970/Core/ReportingGroup.py
@@ -61,9 +61,9 @@ class ReportingGroup(IdentifiedObject):
     def setBusNameMarker(self, value):
         for x in self._BusNameMarker:
             x.ReportingGroup = None
+        self._BusNameMarker = []
         for y in value:
-            y._ReportingGroup = self
-        self._BusNameMarker = value
+            y.ReportingGroup = self
 
     BusNameMarker = property(getBusNameMarker, setBusNameMarker)
 
@@ -100,9 +100,9 @@ class ReportingGroup(IdentifiedObject):
     def setTopologicalNode(self, value):
         for x in self._TopologicalNode:
             x.ReportingGroup = None
+        self._TopologicalNode = []
         for y in value:
-            y._ReportingGroup = self
-        self._TopologicalNode = value
+            y.ReportingGroup = self
 
     TopologicalNode = property(getTopologicalNode, setTopologicalNode)
 
diff --git a/CIM15/IEC61970/Core/ReportingSuperGroup.py b/CIM15/IEC61970/Core/ReportingSuperGroup.py
index 6c99759..2f7d56b 100644
--- a/CIM15/IEC61970/Core/ReportingSuperGroup.py
+++ b/CIM15/IEC61970/Core/ReportingSuperGroup.py
@@ -49,9 +49,9 @@ class ReportingSuperGroup(IdentifiedObject):
     def setReportingGroup(self, value):
         for x in self._ReportingGroup:
             x.ReportingSuperGroup = None
+        self._ReportingGroup = []
         for y in value:
-            y._ReportingSuperGroup = self
-        self._ReportingGroup = value
+            y.ReportingSuperGroup = self
 
     ReportingGroup = property(getReportingGroup, setReportingGroup)
 
diff --git a/CIM15/IEC61970/Core/SubGeographicalRegion.py b/CIM15/IEC61970/Core/SubGeographicalRegion.py
index c1e20c3..466e8e1 100644
--- a/CIM15/IEC61970/Core/SubGeographicalRegion.py
+++ b/CIM15/IEC61970/Core/SubGeographicalRegion.py
@@ -57,9 +57,9 @@ class SubGeographicalRegion(IdentifiedObject):
     def setSubstations(self, value):
         for x in self._Substations:
             x.Region = None
+        self._Substations = []
         for y in value:
-            y._Region = self
-        self._Substations = value
+            y.Region = self
 
     Substations = property(getSubstations, setSubstations)
 
@@ -79,9 +79,9 @@ class SubGeographicalRegion(IdentifiedObject):
     def setLines(self, value):
         for x in self._Lines:
             x.Region = None
+        self._Lines = []
         for y in value:
-            y._Region = self
-        self._Lines = value
+            y.Region = self
 
     Lines = property(getLines, setLines)
 
diff --git a/CIM15/IEC61970/Core/Substation.py b/CIM15/IEC61970/Core/Substation.py
index 5577393..5490467 100644
--- a/CIM15/IEC61970/Core/Substation.py
+++ b/CIM15/IEC61970/Core/Substation.py
@@ -57,9 +57,9 @@ class Substation(EquipmentContainer):
     def setBays(self, value):
         for x in self._Bays:
             x.Substation = None
+        self._Bays = []
         for y in value:
-            y._Substation = self
-        self._Bays = value
+            y.Substation = self
 
     Bays = property(getBays, setBays)
 
@@ -79,9 +79,9 @@ class Substation(EquipmentContainer):
     def setVoltageLevels(self, value):
         for x in self._VoltageLevels:
             x.Substation = None
+        self._VoltageLevels = []
         for y in value:
-            y._Substation = self
-        self._VoltageLevels = value
+            y.Substation = self
 
     VoltageLevels = property(getVoltageLevels, setVoltageLevels)
 
diff --git a/CIM15/IEC61970/Core/Terminal.py b/CIM15/IEC61970/Core/Terminal.py
index d51d55e..9351052 100644
--- a/CIM15/IEC61970/Core/Terminal.py
+++ b/CIM15/IEC61970/Core/Terminal.py
@@ -132,9 +132,9 @@ class Terminal(IdentifiedObject):
     def setTieFlow(self, value):
         for x in self._TieFlow:
             x.Terminal = None
+        self._TieFlow = []
         for y in value:
-            y._Terminal = self
-        self._TieFlow = value
+            y.Terminal = self
 
     TieFlow = property(getTieFlow, setTieFlow)
 
@@ -154,9 +154,9 @@ class Terminal(IdentifiedObject):
     def setHasSecond_MutualCoupling(self, value):
         for x in self._HasSecond_MutualCoupling:
             x.Second_Terminal = None
+        self._HasSecond_MutualCoupling = []
         for y in value:
-            y._Second_Terminal = self
-        self._HasSecond_MutualCoupling = value
+            y.Second_Terminal = self
 
     HasSecond_MutualCoupling = property(getHasSecond_MutualCoupling, setHasSecond_MutualCoupling)
 
@@ -176,9 +176,9 @@ class Terminal(IdentifiedObject):
     def setOperationalLimitSet(self, value):
         for x in self._OperationalLimitSet:
             x.Terminal = None
+        self._OperationalLimitSet = []
         for y in value:
-            y._Terminal = self
-        self._OperationalLimitSet = value
+            y.Terminal = self
 
     OperationalLimitSet = property(getOperationalLimitSet, setOperationalLimitSet)
 
@@ -198,9 +198,9 @@ class Terminal(IdentifiedObject):
     def setMeasurements(self, value):
         for x in self._Measurements:
             x.Terminal = None
+        self._Measurements = []
         for y in value:
-            y._Terminal = self
-        self._Measurements = value
+            y.Terminal = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
@@ -237,9 +237,9 @@ class Terminal(IdentifiedObject):
     def setRegulatingControl(self, value):
         for x in self._RegulatingControl:
             x.Terminal = None
+        self._RegulatingControl = []
         for y in value:
-            y._Terminal = self
-        self._RegulatingControl = value
+            y.Terminal = self
 
     RegulatingControl = property(getRegulatingControl, setRegulatingControl)
 
@@ -259,9 +259,9 @@ class Terminal(IdentifiedObject):
     def setHasFirst_MutualCoupling(self, value):
         for x in self._HasFirst_MutualCoupling:
             x.First_Terminal = None
+        self._HasFirst_MutualCoupling = []
         for y in value:
-            y._First_Terminal = self
-        self._HasFirst_MutualCoupling = value
+            y.First_Terminal = self
 
     HasFirst_MutualCoupling = property(getHasFirst_MutualCoupling, setHasFirst_MutualCoupling)
 
@@ -280,9 +280,9 @@ class Terminal(IdentifiedObject):
     def setAuxiliaryEquipment(self, value):
         for x in self._AuxiliaryEquipment:
             x.Terminal = None
+        self._AuxiliaryEquipment = []
         for y in value:
-            y._Terminal = self
-        self._AuxiliaryEquipment = value
+            y.Terminal = self
 
     AuxiliaryEquipment = property(getAuxiliaryEquipment, setAuxiliaryEquipment)
 
@@ -302,9 +302,9 @@ class Terminal(IdentifiedObject):
     def setTransformerEnd(self, value):
         for x in self._TransformerEnd:
             x.Terminal = None
+        self._TransformerEnd = []
         for y in value:
-            y._Terminal = self
-        self._TransformerEnd = value
+            y.Terminal = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
@@ -341,9 +341,9 @@ class Terminal(IdentifiedObject):
     def setBranchGroupTerminal(self, value):
         for x in self._BranchGroupTerminal:
             x.Terminal = None
+        self._BranchGroupTerminal = []
         for y in value:
-            y._Terminal = self
-        self._BranchGroupTerminal = value
+            y.Terminal = self
 
     BranchGroupTerminal = property(getBranchGroupTerminal, setBranchGroupTerminal)
 
diff --git a/CIM15/IEC61970/Core/VoltageLevel.py b/CIM15/IEC61970/Core/VoltageLevel.py
index 7570aad..23ca869 100644
--- a/CIM15/IEC61970/Core/VoltageLevel.py
+++ b/CIM15/IEC61970/Core/VoltageLevel.py
@@ -65,9 +65,9 @@ class VoltageLevel(EquipmentContainer):
     def setBays(self, value):
         for x in self._Bays:
             x.VoltageLevel = None
+        self._Bays = []
         for y in value:
-            y._VoltageLevel = self
-        self._Bays = value
+            y.VoltageLevel = self
 
     Bays = property(getBays, setBays)
 
diff --git a/CIM15/IEC61970/Equivalents/EquivalentNetwork.py b/CIM15/IEC61970/Equivalents/EquivalentNetwork.py
index 7aa0c22..1ca9669 100644
--- a/CIM15/IEC61970/Equivalents/EquivalentNetwork.py
+++ b/CIM15/IEC61970/Equivalents/EquivalentNetwork.py
@@ -49,9 +49,9 @@ class EquivalentNetwork(ConnectivityNodeContainer):
     def setEquivalentEquipments(self, value):
         for x in self._EquivalentEquipments:
             x.EquivalentNetwork = None
+        self._EquivalentEquipments = []
         for y in value:
-            y._EquivalentNetwork = self
-        self._EquivalentEquipments = value
+            y.EquivalentNetwork = self
 
     EquivalentEquipments = property(getEquivalentEquipments, setEquivalentEquipments)
 
diff --git a/CIM15/IEC61970/Generation/GenerationDynamics/HeatRecoveryBoiler.py b/CIM15/IEC61970/Generation/GenerationDynamics/HeatRecoveryBoiler.py
index 0767f47..5b75641 100644
--- a/CIM15/IEC61970/Generation/GenerationDynamics/HeatRecoveryBoiler.py
+++ b/CIM15/IEC61970/Generation/GenerationDynamics/HeatRecoveryBoiler.py
@@ -53,9 +53,9 @@ class HeatRecoveryBoiler(FossilSteamSupply):
     def setCombustionTurbines(self, value):
         for x in self._CombustionTurbines:
             x.HeatRecoveryBoiler = None
+        self._CombustionTurbines = []
         for y in value:
-            y._HeatRecoveryBoiler = self
-        self._CombustionTurbines = value
+            y.HeatRecoveryBoiler = self
 
     CombustionTurbines = property(getCombustionTurbines, setCombustionTurbines)
 
diff --git a/CIM15/IEC61970/Generation/Production/CogenerationPlant.py b/CIM15/IEC61970/Generation/Production/CogenerationPlant.py
index e3308c7..4e05391 100644
--- a/CIM15/IEC61970/Generation/Production/CogenerationPlant.py
+++ b/CIM15/IEC61970/Generation/Production/CogenerationPlant.py
@@ -89,9 +89,9 @@ class CogenerationPlant(PowerSystemResource):
     def setThermalGeneratingUnits(self, value):
         for x in self._ThermalGeneratingUnits:
             x.CogenerationPlant = None
+        self._ThermalGeneratingUnits = []
         for y in value:
-            y._CogenerationPlant = self
-        self._ThermalGeneratingUnits = value
+            y.CogenerationPlant = self
 
     ThermalGeneratingUnits = property(getThermalGeneratingUnits, setThermalGeneratingUnits)
 
diff --git a/CIM15/IEC61970/Generation/Production/CombinedCyclePlant.py b/CIM15/IEC61970/Generation/Production/CombinedCyclePlant.py
index 503ab04..b21842d 100644
--- a/CIM15/IEC61970/Generation/Production/CombinedCyclePlant.py
+++ b/CIM15/IEC61970/Generation/Production/CombinedCyclePlant.py
@@ -53,9 +53,9 @@ class CombinedCyclePlant(PowerSystemResource):
     def setThermalGeneratingUnits(self, value):
         for x in self._ThermalGeneratingUnits:
             x.CombinedCyclePlant = None
+        self._ThermalGeneratingUnits = []
         for y in value:
-            y._CombinedCyclePlant = self
-        self._ThermalGeneratingUnits = value
+            y.CombinedCyclePlant = self
 
     ThermalGeneratingUnits = property(getThermalGeneratingUnits, setThermalGeneratingUnits)
 
diff --git a/CIM15/IEC61970/Generation/Production/FossilFuel.py b/CIM15/IEC61970/Generation/Production/FossilFuel.py
index a16607a..ce36722 100644
--- a/CIM15/IEC61970/Generation/Production/FossilFuel.py
+++ b/CIM15/IEC61970/Generation/Production/FossilFuel.py
@@ -110,9 +110,9 @@ class FossilFuel(IdentifiedObject):
     def setFuelAllocationSchedules(self, value):
         for x in self._FuelAllocationSchedules:
             x.FossilFuel = None
+        self._FuelAllocationSchedules = []
         for y in value:
-            y._FossilFuel = self
-        self._FuelAllocationSchedules = value
+            y.FossilFuel = self
 
     FuelAllocationSchedules = property(getFuelAllocationSchedules, setFuelAllocationSchedules)
 
diff --git a/CIM15/IEC61970/Generation/Production/GeneratingUnit.py b/CIM15/IEC61970/Generation/Production/GeneratingUnit.py
index ab50e15..7062b82 100644
--- a/CIM15/IEC61970/Generation/Production/GeneratingUnit.py
+++ b/CIM15/IEC61970/Generation/Production/GeneratingUnit.py
@@ -237,9 +237,9 @@ class GeneratingUnit(Equipment):
     def setControlAreaGeneratingUnit(self, value):
         for x in self._ControlAreaGeneratingUnit:
             x.GeneratingUnit = None
+        self._ControlAreaGeneratingUnit = []
         for y in value:
-            y._GeneratingUnit = self
-        self._ControlAreaGeneratingUnit = value
+            y.GeneratingUnit = self
 
     ControlAreaGeneratingUnit = property(getControlAreaGeneratingUnit, setControlAreaGeneratingUnit)
 
@@ -259,9 +259,9 @@ class GeneratingUnit(Equipment):
     def setSynchronousMachines(self, value):
         for x in self._SynchronousMachines:
             x.GeneratingUnit = None
+        self._SynchronousMachines = []
         for y in value:
-            y._GeneratingUnit = self
-        self._SynchronousMachines = value
+            y.GeneratingUnit = self
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
@@ -297,9 +297,9 @@ class GeneratingUnit(Equipment):
     def setGrossToNetActivePowerCurves(self, value):
         for x in self._GrossToNetActivePowerCurves:
             x.GeneratingUnit = None
+        self._GrossToNetActivePowerCurves = []
         for y in value:
-            y._GeneratingUnit = self
-        self._GrossToNetActivePowerCurves = value
+            y.GeneratingUnit = self
 
     GrossToNetActivePowerCurves = property(getGrossToNetActivePowerCurves, setGrossToNetActivePowerCurves)
 
@@ -319,9 +319,9 @@ class GeneratingUnit(Equipment):
     def setGenUnitOpCostCurves(self, value):
         for x in self._GenUnitOpCostCurves:
             x.GeneratingUnit = None
+        self._GenUnitOpCostCurves = []
         for y in value:
-            y._GeneratingUnit = self
-        self._GenUnitOpCostCurves = value
+            y.GeneratingUnit = self
 
     GenUnitOpCostCurves = property(getGenUnitOpCostCurves, setGenUnitOpCostCurves)
 
diff --git a/CIM15/IEC61970/Generation/Production/HydroGeneratingUnit.py b/CIM15/IEC61970/Generation/Production/HydroGeneratingUnit.py
index 5e86c53..72d41a6 100644
--- a/CIM15/IEC61970/Generation/Production/HydroGeneratingUnit.py
+++ b/CIM15/IEC61970/Generation/Production/HydroGeneratingUnit.py
@@ -102,9 +102,9 @@ class HydroGeneratingUnit(GeneratingUnit):
     def setTailbayLossCurve(self, value):
         for x in self._TailbayLossCurve:
             x.HydroGeneratingUnit = None
+        self._TailbayLossCurve = []
         for y in value:
-            y._HydroGeneratingUnit = self
-        self._TailbayLossCurve = value
+            y.HydroGeneratingUnit = self
 
     TailbayLossCurve = property(getTailbayLossCurve, setTailbayLossCurve)
 
@@ -124,9 +124,9 @@ class HydroGeneratingUnit(GeneratingUnit):
     def setHydroGeneratingEfficiencyCurves(self, value):
         for x in self._HydroGeneratingEfficiencyCurves:
             x.HydroGeneratingUnit = None
+        self._HydroGeneratingEfficiencyCurves = []
         for y in value:
-            y._HydroGeneratingUnit = self
-        self._HydroGeneratingEfficiencyCurves = value
+            y.HydroGeneratingUnit = self
 
     HydroGeneratingEfficiencyCurves = property(getHydroGeneratingEfficiencyCurves, setHydroGeneratingEfficiencyCurves)
 
diff --git a/CIM15/IEC61970/Generation/Production/HydroPowerPlant.py b/CIM15/IEC61970/Generation/Production/HydroPowerPlant.py
index 9719ea8..306ffbe 100644
--- a/CIM15/IEC61970/Generation/Production/HydroPowerPlant.py
+++ b/CIM15/IEC61970/Generation/Production/HydroPowerPlant.py
@@ -97,9 +97,9 @@ class HydroPowerPlant(PowerSystemResource):
     def setHydroGeneratingUnits(self, value):
         for x in self._HydroGeneratingUnits:
             x.HydroPowerPlant = None
+        self._HydroGeneratingUnits = []
         for y in value:
-            y._HydroPowerPlant = self
-        self._HydroGeneratingUnits = value
+            y.HydroPowerPlant = self
 
     HydroGeneratingUnits = property(getHydroGeneratingUnits, setHydroGeneratingUnits)
 
@@ -153,9 +153,9 @@ class HydroPowerPlant(PowerSystemResource):
     def setHydroPumps(self, value):
         for x in self._HydroPumps:
             x.HydroPowerPlant = None
+        self._HydroPumps = []
         for y in value:
-            y._HydroPowerPlant = self
-        self._HydroPumps = value
+            y.HydroPowerPlant = self
 
     HydroPumps = property(getHydroPumps, setHydroPumps)
 
diff --git a/CIM15/IEC61970/Generation/Production/Reservoir.py b/CIM15/IEC61970/Generation/Production/Reservoir.py
index 8dbf90f..76f3d29 100644
--- a/CIM15/IEC61970/Generation/Production/Reservoir.py
+++ b/CIM15/IEC61970/Generation/Production/Reservoir.py
@@ -117,9 +117,9 @@ class Reservoir(PowerSystemResource):
     def setLevelVsVolumeCurves(self, value):
         for x in self._LevelVsVolumeCurves:
             x.Reservoir = None
+        self._LevelVsVolumeCurves = []
         for y in value:
-            y._Reservoir = self
-        self._LevelVsVolumeCurves = value
+            y.Reservoir = self
 
     LevelVsVolumeCurves = property(getLevelVsVolumeCurves, setLevelVsVolumeCurves)
 
@@ -155,9 +155,9 @@ class Reservoir(PowerSystemResource):
     def setHydroPowerPlants(self, value):
         for x in self._HydroPowerPlants:
             x.Reservoir = None
+        self._HydroPowerPlants = []
         for y in value:
-            y._Reservoir = self
-        self._HydroPowerPlants = value
+            y.Reservoir = self
 
     HydroPowerPlants = property(getHydroPowerPlants, setHydroPowerPlants)
 
@@ -177,9 +177,9 @@ class Reservoir(PowerSystemResource):
     def setUpstreamFromHydroPowerPlants(self, value):
         for x in self._UpstreamFromHydroPowerPlants:
             x.GenSourcePumpDischargeReservoir = None
+        self._UpstreamFromHydroPowerPlants = []
         for y in value:
-            y._GenSourcePumpDischargeReservoir = self
-        self._UpstreamFromHydroPowerPlants = value
+            y.GenSourcePumpDischargeReservoir = self
 
     UpstreamFromHydroPowerPlants = property(getUpstreamFromHydroPowerPlants, setUpstreamFromHydroPowerPlants)
 
@@ -199,9 +199,9 @@ class Reservoir(PowerSystemResource):
     def setInflowForecasts(self, value):
         for x in self._InflowForecasts:
             x.Reservoir = None
+        self._InflowForecasts = []
         for y in value:
-            y._Reservoir = self
-        self._InflowForecasts = value
+            y.Reservoir = self
 
     InflowForecasts = property(getInflowForecasts, setInflowForecasts)
 
@@ -238,9 +238,9 @@ class Reservoir(PowerSystemResource):
     def setSpillsIntoReservoirs(self, value):
         for x in self._SpillsIntoReservoirs:
             x.SpillsFromReservoir = None
+        self._SpillsIntoReservoirs = []
         for y in value:
-            y._SpillsFromReservoir = self
-        self._SpillsIntoReservoirs = value
+            y.SpillsFromReservoir = self
 
     SpillsIntoReservoirs = property(getSpillsIntoReservoirs, setSpillsIntoReservoirs)
 
diff --git a/CIM15/IEC61970/Generation/Production/ThermalGeneratingUnit.py b/CIM15/IEC61970/Generation/Production/ThermalGeneratingUnit.py
index 06d3b22..4311a99 100644
--- a/CIM15/IEC61970/Generation/Production/ThermalGeneratingUnit.py
+++ b/CIM15/IEC61970/Generation/Production/ThermalGeneratingUnit.py
@@ -146,9 +146,9 @@ class ThermalGeneratingUnit(GeneratingUnit):
     def setFossilFuels(self, value):
         for x in self._FossilFuels:
             x.ThermalGeneratingUnit = None
+        self._FossilFuels = []
         for y in value:
-            y._ThermalGeneratingUnit = self
-        self._FossilFuels = value
+            y.ThermalGeneratingUnit = self
 
     FossilFuels = property(getFossilFuels, setFossilFuels)
 
@@ -184,9 +184,9 @@ class ThermalGeneratingUnit(GeneratingUnit):
     def setFuelAllocationSchedules(self, value):
         for x in self._FuelAllocationSchedules:
             x.ThermalGeneratingUnit = None
+        self._FuelAllocationSchedules = []
         for y in value:
-            y._ThermalGeneratingUnit = self
-        self._FuelAllocationSchedules = value
+            y.ThermalGeneratingUnit = self
 
     FuelAllocationSchedules = property(getFuelAllocationSchedules, setFuelAllocationSchedules)
 
@@ -206,9 +206,9 @@ class ThermalGeneratingUnit(GeneratingUnit):
     def setEmissionCurves(self, value):
         for x in self._EmissionCurves:
             x.ThermalGeneratingUnit = None
+        self._EmissionCurves = []
         for y in value:
-            y._ThermalGeneratingUnit = self
-        self._EmissionCurves = value
+            y.ThermalGeneratingUnit = self
 
     EmissionCurves = property(getEmissionCurves, setEmissionCurves)
 
@@ -293,9 +293,9 @@ class ThermalGeneratingUnit(GeneratingUnit):
     def setEmmissionAccounts(self, value):
         for x in self._EmmissionAccounts:
             x.ThermalGeneratingUnit = None
+        self._EmmissionAccounts = []
         for y in value:
-            y._ThermalGeneratingUnit = self
-        self._EmmissionAccounts = value
+            y.ThermalGeneratingUnit = self
 
     EmmissionAccounts = property(getEmmissionAccounts, setEmmissionAccounts)
 
diff --git a/CIM15/IEC61970/Graphics/DiagramObject.py b/CIM15/IEC61970/Graphics/DiagramObject.py
index 81f3390..9930e8d 100644
--- a/CIM15/IEC61970/Graphics/DiagramObject.py
+++ b/CIM15/IEC61970/Graphics/DiagramObject.py
@@ -150,9 +150,9 @@ class DiagramObject(IdentifiedObject):
     def setDiagramObjectPoints(self, value):
         for x in self._DiagramObjectPoints:
             x.DiagramObject = None
+        self._DiagramObjectPoints = []
         for y in value:
-            y._DiagramObject = self
-        self._DiagramObjectPoints = value
+            y.DiagramObject = self
 
     DiagramObjectPoints = property(getDiagramObjectPoints, setDiagramObjectPoints)
 
diff --git a/CIM15/IEC61970/Graphics/DiagramObjectGluePoint.py b/CIM15/IEC61970/Graphics/DiagramObjectGluePoint.py
index fa3f135..c5010e1 100644
--- a/CIM15/IEC61970/Graphics/DiagramObjectGluePoint.py
+++ b/CIM15/IEC61970/Graphics/DiagramObjectGluePoint.py
@@ -49,9 +49,9 @@ class DiagramObjectGluePoint(Element):
     def setDiagramObjectPoints(self, value):
         for x in self._DiagramObjectPoints:
             x.DiagramObjectGluePoint = None
+        self._DiagramObjectPoints = []
         for y in value:
-            y._DiagramObjectGluePoint = self
-        self._DiagramObjectPoints = value
+            y.DiagramObjectGluePoint = self
 
     DiagramObjectPoints = property(getDiagramObjectPoints, setDiagramObjectPoints)
 
diff --git a/CIM15/IEC61970/Graphics/DiagramObjectStyle.py b/CIM15/IEC61970/Graphics/DiagramObjectStyle.py
index 5b14f48..a5030ed 100644
--- a/CIM15/IEC61970/Graphics/DiagramObjectStyle.py
+++ b/CIM15/IEC61970/Graphics/DiagramObjectStyle.py
@@ -49,9 +49,9 @@ class DiagramObjectStyle(IdentifiedObject):
     def setDiagramObjects(self, value):
         for x in self._DiagramObjects:
             x.DiagramObjectStyle = None
+        self._DiagramObjects = []
         for y in value:
-            y._DiagramObjectStyle = self
-        self._DiagramObjects = value
+            y.DiagramObjectStyle = self
 
     DiagramObjects = property(getDiagramObjects, setDiagramObjects)
 
diff --git a/CIM15/IEC61970/Informative/InfAssetModels/AssetModelCatalogue.py b/CIM15/IEC61970/Informative/InfAssetModels/AssetModelCatalogue.py
index 7b155c0..cf93405 100644
--- a/CIM15/IEC61970/Informative/InfAssetModels/AssetModelCatalogue.py
+++ b/CIM15/IEC61970/Informative/InfAssetModels/AssetModelCatalogue.py
@@ -51,9 +51,9 @@ class AssetModelCatalogue(IdentifiedObject):
     def setAssetModelCatalogueItems(self, value):
         for x in self._AssetModelCatalogueItems:
             x.AssetModelCatalogue = None
+        self._AssetModelCatalogueItems = []
         for y in value:
-            y._AssetModelCatalogue = self
-        self._AssetModelCatalogueItems = value
+            y.AssetModelCatalogue = self
 
     AssetModelCatalogueItems = property(getAssetModelCatalogueItems, setAssetModelCatalogueItems)
 
diff --git a/CIM15/IEC61970/Informative/InfAssetModels/AssetModelCatalogueItem.py b/CIM15/IEC61970/Informative/InfAssetModels/AssetModelCatalogueItem.py
index ca6dbf3..b6d9807 100644
--- a/CIM15/IEC61970/Informative/InfAssetModels/AssetModelCatalogueItem.py
+++ b/CIM15/IEC61970/Informative/InfAssetModels/AssetModelCatalogueItem.py
@@ -64,9 +64,9 @@ class AssetModelCatalogueItem(Document):
     def setErpPOLineItems(self, value):
         for x in self._ErpPOLineItems:
             x.AssetModelCatalogueItem = None
+        self._ErpPOLineItems = []
         for y in value:
-            y._AssetModelCatalogueItem = self
-        self._ErpPOLineItems = value
+            y.AssetModelCatalogueItem = self
 
     ErpPOLineItems = property(getErpPOLineItems, setErpPOLineItems)
 
@@ -117,9 +117,9 @@ class AssetModelCatalogueItem(Document):
     def setErpQuoteLineItems(self, value):
         for x in self._ErpQuoteLineItems:
             x.AssetModelCatalogueItem = None
+        self._ErpQuoteLineItems = []
         for y in value:
-            y._AssetModelCatalogueItem = self
-        self._ErpQuoteLineItems = value
+            y.AssetModelCatalogueItem = self
 
     ErpQuoteLineItems = property(getErpQuoteLineItems, setErpQuoteLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfAssetModels/TransformerAssetModel.py b/CIM15/IEC61970/Informative/InfAssetModels/TransformerAssetModel.py
index 3a178e8..26af693 100644
--- a/CIM15/IEC61970/Informative/InfAssetModels/TransformerAssetModel.py
+++ b/CIM15/IEC61970/Informative/InfAssetModels/TransformerAssetModel.py
@@ -108,9 +108,9 @@ class TransformerAssetModel(ProductAssetModel):
     def setTransformerAssets(self, value):
         for x in self._TransformerAssets:
             x.TransformerAssetModel = None
+        self._TransformerAssets = []
         for y in value:
-            y._TransformerAssetModel = self
-        self._TransformerAssets = value
+            y.TransformerAssetModel = self
 
     TransformerAssets = property(getTransformerAssets, setTransformerAssets)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/Bushing.py b/CIM15/IEC61970/Informative/InfAssets/Bushing.py
index 2048e2a..474720e 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Bushing.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Bushing.py
@@ -87,9 +87,9 @@ class Bushing(Asset):
     def setBushingInsulationPFs(self, value):
         for x in self._BushingInsulationPFs:
             x.BushingInfo = None
+        self._BushingInsulationPFs = []
         for y in value:
-            y._BushingInfo = self
-        self._BushingInsulationPFs = value
+            y.BushingInfo = self
 
     BushingInsulationPFs = property(getBushingInsulationPFs, setBushingInsulationPFs)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/ComEquipment.py b/CIM15/IEC61970/Informative/InfAssets/ComEquipment.py
index adfc3ab..37e3c12 100644
--- a/CIM15/IEC61970/Informative/InfAssets/ComEquipment.py
+++ b/CIM15/IEC61970/Informative/InfAssets/ComEquipment.py
@@ -49,9 +49,9 @@ class ComEquipment(Asset):
     def setEndDeviceFunctions(self, value):
         for x in self._EndDeviceFunctions:
             x.ComEquipment = None
+        self._EndDeviceFunctions = []
         for y in value:
-            y._ComEquipment = self
-        self._EndDeviceFunctions = value
+            y.ComEquipment = self
 
     EndDeviceFunctions = property(getEndDeviceFunctions, setEndDeviceFunctions)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/CurrentTransformerInfo.py b/CIM15/IEC61970/Informative/InfAssets/CurrentTransformerInfo.py
index 4662ed2..ea774fe 100644
--- a/CIM15/IEC61970/Informative/InfAssets/CurrentTransformerInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/CurrentTransformerInfo.py
@@ -114,9 +114,9 @@ class CurrentTransformerInfo(AssetInfo):
     def setCTs(self, value):
         for x in self._CTs:
             x.CTInfo = None
+        self._CTs = []
         for y in value:
-            y._CTInfo = self
-        self._CTs = value
+            y.CTInfo = self
 
     CTs = property(getCTs, setCTs)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py b/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py
index f1f30fb..b63666f 100644
--- a/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py
@@ -76,9 +76,9 @@ class DimensionsInfo(IdentifiedObject):
     def setLocations(self, value):
         for x in self._Locations:
             x.DimensionsInfo = None
+        self._Locations = []
         for y in value:
-            y._DimensionsInfo = self
-        self._Locations = value
+            y.DimensionsInfo = self
 
     Locations = property(getLocations, setLocations)
 
@@ -97,9 +97,9 @@ class DimensionsInfo(IdentifiedObject):
     def setAssetInfos(self, value):
         for x in self._AssetInfos:
             x.DimensionsInfo = None
+        self._AssetInfos = []
         for y in value:
-            y._DimensionsInfo = self
-        self._AssetInfos = value
+            y.DimensionsInfo = self
 
     AssetInfos = property(getAssetInfos, setAssetInfos)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/Duct.py b/CIM15/IEC61970/Informative/InfAssets/Duct.py
index f67740e..b196057 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Duct.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Duct.py
@@ -76,9 +76,9 @@ class Duct(AssetContainer):
     def setCableInfos(self, value):
         for x in self._CableInfos:
             x.DuctBankInfo = None
+        self._CableInfos = []
         for y in value:
-            y._DuctBankInfo = self
-        self._CableInfos = value
+            y.DuctBankInfo = self
 
     CableInfos = property(getCableInfos, setCableInfos)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/DuctBank.py b/CIM15/IEC61970/Informative/InfAssets/DuctBank.py
index a683cde..c670fa1 100644
--- a/CIM15/IEC61970/Informative/InfAssets/DuctBank.py
+++ b/CIM15/IEC61970/Informative/InfAssets/DuctBank.py
@@ -52,9 +52,9 @@ class DuctBank(AssetContainer):
     def setDuctInfos(self, value):
         for x in self._DuctInfos:
             x.DuctBankInfo = None
+        self._DuctInfos = []
         for y in value:
-            y._DuctBankInfo = self
-        self._DuctInfos = value
+            y.DuctBankInfo = self
 
     DuctInfos = property(getDuctInfos, setDuctInfos)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/FaultIndicatorInfo.py b/CIM15/IEC61970/Informative/InfAssets/FaultIndicatorInfo.py
index fa866ea..4e780a8 100644
--- a/CIM15/IEC61970/Informative/InfAssets/FaultIndicatorInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/FaultIndicatorInfo.py
@@ -53,9 +53,9 @@ class FaultIndicatorInfo(AssetInfo):
     def setFaultIndicators(self, value):
         for x in self._FaultIndicators:
             x.FaultIndicatorInfo = None
+        self._FaultIndicators = []
         for y in value:
-            y._FaultIndicatorInfo = self
-        self._FaultIndicators = value
+            y.FaultIndicatorInfo = self
 
     FaultIndicators = property(getFaultIndicators, setFaultIndicators)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/GenericAssetModelOrMaterial.py b/CIM15/IEC61970/Informative/InfAssets/GenericAssetModelOrMaterial.py
index 5872452..83dc4e2 100644
--- a/CIM15/IEC61970/Informative/InfAssets/GenericAssetModelOrMaterial.py
+++ b/CIM15/IEC61970/Informative/InfAssets/GenericAssetModelOrMaterial.py
@@ -84,9 +84,9 @@ class GenericAssetModelOrMaterial(AssetModel):
     def setErpReqLineItems(self, value):
         for x in self._ErpReqLineItems:
             x.TypeAsset = None
+        self._ErpReqLineItems = []
         for y in value:
-            y._TypeAsset = self
-        self._ErpReqLineItems = value
+            y.TypeAsset = self
 
     ErpReqLineItems = property(getErpReqLineItems, setErpReqLineItems)
 
@@ -106,9 +106,9 @@ class GenericAssetModelOrMaterial(AssetModel):
     def setProductAssetModels(self, value):
         for x in self._ProductAssetModels:
             x.GenericAssetModelOrMaterial = None
+        self._ProductAssetModels = []
         for y in value:
-            y._GenericAssetModelOrMaterial = self
-        self._ProductAssetModels = value
+            y.GenericAssetModelOrMaterial = self
 
     ProductAssetModels = property(getProductAssetModels, setProductAssetModels)
 
@@ -127,9 +127,9 @@ class GenericAssetModelOrMaterial(AssetModel):
     def setErpInventoryIssues(self, value):
         for x in self._ErpInventoryIssues:
             x.TypeAsset = None
+        self._ErpInventoryIssues = []
         for y in value:
-            y._TypeAsset = self
-        self._ErpInventoryIssues = value
+            y.TypeAsset = self
 
     ErpInventoryIssues = property(getErpInventoryIssues, setErpInventoryIssues)
 
@@ -194,9 +194,9 @@ class GenericAssetModelOrMaterial(AssetModel):
     def setErpBomItemDatas(self, value):
         for x in self._ErpBomItemDatas:
             x.TypeAsset = None
+        self._ErpBomItemDatas = []
         for y in value:
-            y._TypeAsset = self
-        self._ErpBomItemDatas = value
+            y.TypeAsset = self
 
     ErpBomItemDatas = property(getErpBomItemDatas, setErpBomItemDatas)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py b/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py
index 4e07855..4cd064c 100644
--- a/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py
+++ b/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py
@@ -94,9 +94,9 @@ class MountingPoint(IdentifiedObject):
     def setOverheadConductors(self, value):
         for x in self._OverheadConductors:
             x.MountingPoint = None
+        self._OverheadConductors = []
         for y in value:
-            y._MountingPoint = self
-        self._OverheadConductors = value
+            y.MountingPoint = self
 
     OverheadConductors = property(getOverheadConductors, setOverheadConductors)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/Pole.py b/CIM15/IEC61970/Informative/InfAssets/Pole.py
index f222b29..de3faa3 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Pole.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Pole.py
@@ -93,9 +93,9 @@ class Pole(Structure):
     def setStreetlights(self, value):
         for x in self._Streetlights:
             x.Pole = None
+        self._Streetlights = []
         for y in value:
-            y._Pole = self
-        self._Streetlights = value
+            y.Pole = self
 
     Streetlights = property(getStreetlights, setStreetlights)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/PotentialTransformerInfo.py b/CIM15/IEC61970/Informative/InfAssets/PotentialTransformerInfo.py
index 0de186e..7384d2e 100644
--- a/CIM15/IEC61970/Informative/InfAssets/PotentialTransformerInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/PotentialTransformerInfo.py
@@ -77,9 +77,9 @@ class PotentialTransformerInfo(AssetInfo):
     def setPTs(self, value):
         for x in self._PTs:
             x.PTInfo = None
+        self._PTs = []
         for y in value:
-            y._PTInfo = self
-        self._PTs = value
+            y.PTInfo = self
 
     PTs = property(getPTs, setPTs)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/Procedure.py b/CIM15/IEC61970/Informative/InfAssets/Procedure.py
index 5fbc1e2..3188e52 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Procedure.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Procedure.py
@@ -77,9 +77,9 @@ class Procedure(Document):
     def setProcedureValues(self, value):
         for x in self._ProcedureValues:
             x.Procedure = None
+        self._ProcedureValues = []
         for y in value:
-            y._Procedure = self
-        self._ProcedureValues = value
+            y.Procedure = self
 
     ProcedureValues = property(getProcedureValues, setProcedureValues)
 
@@ -98,9 +98,9 @@ class Procedure(Document):
     def setProcedureDataSets(self, value):
         for x in self._ProcedureDataSets:
             x.Procedure = None
+        self._ProcedureDataSets = []
         for y in value:
-            y._Procedure = self
-        self._ProcedureDataSets = value
+            y.Procedure = self
 
     ProcedureDataSets = property(getProcedureDataSets, setProcedureDataSets)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/ShuntImpedanceInfo.py b/CIM15/IEC61970/Informative/InfAssets/ShuntImpedanceInfo.py
index fcf3a77..093619c 100644
--- a/CIM15/IEC61970/Informative/InfAssets/ShuntImpedanceInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/ShuntImpedanceInfo.py
@@ -116,9 +116,9 @@ class ShuntImpedanceInfo(AssetInfo):
     def setShuntCompensatorInfos(self, value):
         for x in self._ShuntCompensatorInfos:
             x.ShuntImpedanceInfo = None
+        self._ShuntCompensatorInfos = []
         for y in value:
-            y._ShuntImpedanceInfo = self
-        self._ShuntCompensatorInfos = value
+            y.ShuntImpedanceInfo = self
 
     ShuntCompensatorInfos = property(getShuntCompensatorInfos, setShuntCompensatorInfos)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/Specification.py b/CIM15/IEC61970/Informative/InfAssets/Specification.py
index 5fd4c78..58f8854 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Specification.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Specification.py
@@ -72,9 +72,9 @@ class Specification(Document):
     def setAssetPropertyCurves(self, value):
         for x in self._AssetPropertyCurves:
             x.Specification = None
+        self._AssetPropertyCurves = []
         for y in value:
-            y._Specification = self
-        self._AssetPropertyCurves = value
+            y.Specification = self
 
     AssetPropertyCurves = property(getAssetPropertyCurves, setAssetPropertyCurves)
 
@@ -93,9 +93,9 @@ class Specification(Document):
     def setMediums(self, value):
         for x in self._Mediums:
             x.Specification = None
+        self._Mediums = []
         for y in value:
-            y._Specification = self
-        self._Mediums = value
+            y.Specification = self
 
     Mediums = property(getMediums, setMediums)
 
@@ -115,9 +115,9 @@ class Specification(Document):
     def setAssetProperites(self, value):
         for x in self._AssetProperites:
             x.PropertySpecification = None
+        self._AssetProperites = []
         for y in value:
-            y._PropertySpecification = self
-        self._AssetProperites = value
+            y.PropertySpecification = self
 
     AssetProperites = property(getAssetProperites, setAssetProperites)
 
@@ -136,9 +136,9 @@ class Specification(Document):
     def setReliabilityInfos(self, value):
         for x in self._ReliabilityInfos:
             x.Specification = None
+        self._ReliabilityInfos = []
         for y in value:
-            y._Specification = self
-        self._ReliabilityInfos = value
+            y.Specification = self
 
     ReliabilityInfos = property(getReliabilityInfos, setReliabilityInfos)
 
@@ -188,9 +188,9 @@ class Specification(Document):
     def setRatings(self, value):
         for x in self._Ratings:
             x.RatingSpecification = None
+        self._Ratings = []
         for y in value:
-            y._RatingSpecification = self
-        self._Ratings = value
+            y.RatingSpecification = self
 
     Ratings = property(getRatings, setRatings)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/Structure.py b/CIM15/IEC61970/Informative/InfAssets/Structure.py
index 83fb01f..2bfd419 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Structure.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Structure.py
@@ -80,9 +80,9 @@ class Structure(AssetContainer):
     def setStructureSupportInfos(self, value):
         for x in self._StructureSupportInfos:
             x.SecuredStructure = None
+        self._StructureSupportInfos = []
         for y in value:
-            y._SecuredStructure = self
-        self._StructureSupportInfos = value
+            y.SecuredStructure = self
 
     StructureSupportInfos = property(getStructureSupportInfos, setStructureSupportInfos)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/SurgeProtectorInfo.py b/CIM15/IEC61970/Informative/InfAssets/SurgeProtectorInfo.py
index 806e903..d2ca9eb 100644
--- a/CIM15/IEC61970/Informative/InfAssets/SurgeProtectorInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/SurgeProtectorInfo.py
@@ -65,9 +65,9 @@ class SurgeProtectorInfo(AssetInfo):
     def setSurgeProtectors(self, value):
         for x in self._SurgeProtectors:
             x.SurgeProtectorInfo = None
+        self._SurgeProtectors = []
         for y in value:
-            y._SurgeProtectorInfo = self
-        self._SurgeProtectors = value
+            y.SurgeProtectorInfo = self
 
     SurgeProtectors = property(getSurgeProtectors, setSurgeProtectors)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py b/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py
index b0ef6e8..17b07b8 100644
--- a/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py
+++ b/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py
@@ -94,9 +94,9 @@ class TransformerAsset(Asset):
     def setTransformerObservations(self, value):
         for x in self._TransformerObservations:
             x.TransformerAsset = None
+        self._TransformerObservations = []
         for y in value:
-            y._TransformerAsset = self
-        self._TransformerObservations = value
+            y.TransformerAsset = self
 
     TransformerObservations = property(getTransformerObservations, setTransformerObservations)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py b/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py
index d9f27d0..cc87032 100644
--- a/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py
+++ b/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py
@@ -119,9 +119,9 @@ class TransformerObservation(IdentifiedObject):
     def setBushingInsultationPFs(self, value):
         for x in self._BushingInsultationPFs:
             x.TransformerObservation = None
+        self._BushingInsultationPFs = []
         for y in value:
-            y._TransformerObservation = self
-        self._BushingInsultationPFs = value
+            y.TransformerObservation = self
 
     BushingInsultationPFs = property(getBushingInsultationPFs, setBushingInsultationPFs)
 
@@ -188,9 +188,9 @@ class TransformerObservation(IdentifiedObject):
     def setWindingInsulationPFs(self, value):
         for x in self._WindingInsulationPFs:
             x.TransformerObservation = None
+        self._WindingInsulationPFs = []
         for y in value:
-            y._TransformerObservation = self
-        self._WindingInsulationPFs = value
+            y.TransformerObservation = self
 
     WindingInsulationPFs = property(getWindingInsulationPFs, setWindingInsulationPFs)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/WorkEquipment.py b/CIM15/IEC61970/Informative/InfAssets/WorkEquipment.py
index f60be67..08154f5 100644
--- a/CIM15/IEC61970/Informative/InfAssets/WorkEquipment.py
+++ b/CIM15/IEC61970/Informative/InfAssets/WorkEquipment.py
@@ -68,9 +68,9 @@ class WorkEquipment(Asset):
     def setUsages(self, value):
         for x in self._Usages:
             x.WorkEquipmentAsset = None
+        self._Usages = []
         for y in value:
-            y._WorkEquipmentAsset = self
-        self._Usages = value
+            y.WorkEquipmentAsset = self
 
     Usages = property(getUsages, setUsages)
 
diff --git a/CIM15/IEC61970/Informative/InfCommon/Bank.py b/CIM15/IEC61970/Informative/InfCommon/Bank.py
index fe188f9..9a1b5c8 100644
--- a/CIM15/IEC61970/Informative/InfCommon/Bank.py
+++ b/CIM15/IEC61970/Informative/InfCommon/Bank.py
@@ -61,9 +61,9 @@ class Bank(Organisation):
     def setBankAccounts(self, value):
         for x in self._BankAccounts:
             x.Bank = None
+        self._BankAccounts = []
         for y in value:
-            y._Bank = self
-        self._BankAccounts = value
+            y.Bank = self
 
     BankAccounts = property(getBankAccounts, setBankAccounts)
 
diff --git a/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py b/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py
index 8843c15..e1ba38a 100644
--- a/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py
+++ b/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py
@@ -117,9 +117,9 @@ class ScheduleParameterInfo(IdentifiedObject):
     def setScheduledEvents(self, value):
         for x in self._ScheduledEvents:
             x.ScheduleParameterInfo = None
+        self._ScheduledEvents = []
         for y in value:
-            y._ScheduleParameterInfo = self
-        self._ScheduledEvents = value
+            y.ScheduleParameterInfo = self
 
     ScheduledEvents = property(getScheduledEvents, setScheduledEvents)
 
diff --git a/CIM15/IEC61970/Informative/InfCore/ModelingAuthority.py b/CIM15/IEC61970/Informative/InfCore/ModelingAuthority.py
index 3c4d0be..c980ebc 100644
--- a/CIM15/IEC61970/Informative/InfCore/ModelingAuthority.py
+++ b/CIM15/IEC61970/Informative/InfCore/ModelingAuthority.py
@@ -49,9 +49,9 @@ class ModelingAuthority(IdentifiedObject):
     def setModelingAuthoritySets(self, value):
         for x in self._ModelingAuthoritySets:
             x.ModelingAuthority = None
+        self._ModelingAuthoritySets = []
         for y in value:
-            y._ModelingAuthority = self
-        self._ModelingAuthoritySets = value
+            y.ModelingAuthority = self
 
     ModelingAuthoritySets = property(getModelingAuthoritySets, setModelingAuthoritySets)
 
diff --git a/CIM15/IEC61970/Informative/InfCore/ModelingAuthoritySet.py b/CIM15/IEC61970/Informative/InfCore/ModelingAuthoritySet.py
index bfa8421..ae29b40 100644
--- a/CIM15/IEC61970/Informative/InfCore/ModelingAuthoritySet.py
+++ b/CIM15/IEC61970/Informative/InfCore/ModelingAuthoritySet.py
@@ -53,9 +53,9 @@ class ModelingAuthoritySet(IdentifiedObject):
     def setIdentifiedObjects(self, value):
         for x in self._IdentifiedObjects:
             x.ModelingAuthoritySet = None
+        self._IdentifiedObjects = []
         for y in value:
-            y._ModelingAuthoritySet = self
-        self._IdentifiedObjects = value
+            y.ModelingAuthoritySet = self
 
     IdentifiedObjects = property(getIdentifiedObjects, setIdentifiedObjects)
 
diff --git a/CIM15/IEC61970/Informative/InfCustomers/OutageHistory.py b/CIM15/IEC61970/Informative/InfCustomers/OutageHistory.py
index 5ddad60..6de5db2 100644
--- a/CIM15/IEC61970/Informative/InfCustomers/OutageHistory.py
+++ b/CIM15/IEC61970/Informative/InfCustomers/OutageHistory.py
@@ -49,9 +49,9 @@ class OutageHistory(Document):
     def setOutageReports(self, value):
         for x in self._OutageReports:
             x.OutageHistory = None
+        self._OutageReports = []
         for y in value:
-            y._OutageHistory = self
-        self._OutageReports = value
+            y.OutageHistory = self
 
     OutageReports = property(getOutageReports, setOutageReports)
 
diff --git a/CIM15/IEC61970/Informative/InfCustomers/StandardIndustryCode.py b/CIM15/IEC61970/Informative/InfCustomers/StandardIndustryCode.py
index 37609ee..4ad922f 100644
--- a/CIM15/IEC61970/Informative/InfCustomers/StandardIndustryCode.py
+++ b/CIM15/IEC61970/Informative/InfCustomers/StandardIndustryCode.py
@@ -52,9 +52,9 @@ class StandardIndustryCode(Document):
     def setCustomerAgreements(self, value):
         for x in self._CustomerAgreements:
             x.StandardIndustryCode = None
+        self._CustomerAgreements = []
         for y in value:
-            y._StandardIndustryCode = self
-        self._CustomerAgreements = value
+            y.StandardIndustryCode = self
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
diff --git a/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py b/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py
index 43baa66..ed23363 100644
--- a/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py
+++ b/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py
@@ -84,9 +84,9 @@ class WorkBillingInfo(Document):
     def setWorks(self, value):
         for x in self._Works:
             x.WorkBillingInfo = None
+        self._Works = []
         for y in value:
-            y._WorkBillingInfo = self
-        self._Works = value
+            y.WorkBillingInfo = self
 
     Works = property(getWorks, setWorks)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpBOM.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpBOM.py
index 4075fad..d4e67c2 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpBOM.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpBOM.py
@@ -68,9 +68,9 @@ class ErpBOM(Document):
     def setErpBomItemDatas(self, value):
         for x in self._ErpBomItemDatas:
             x.ErpBOM = None
+        self._ErpBomItemDatas = []
         for y in value:
-            y._ErpBOM = self
-        self._ErpBomItemDatas = value
+            y.ErpBOM = self
 
     ErpBomItemDatas = property(getErpBomItemDatas, setErpBomItemDatas)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpCompetency.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpCompetency.py
index d060657..874bc23 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpCompetency.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpCompetency.py
@@ -48,9 +48,9 @@ class ErpCompetency(IdentifiedObject):
     def setErpPersons(self, value):
         for x in self._ErpPersons:
             x.ErpCompetency = None
+        self._ErpPersons = []
         for y in value:
-            y._ErpCompetency = self
-        self._ErpPersons = value
+            y.ErpCompetency = self
 
     ErpPersons = property(getErpPersons, setErpPersons)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoice.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoice.py
index b649043..a806e6d 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoice.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoice.py
@@ -88,9 +88,9 @@ class ErpInvoice(Document):
     def setErpInvoiceLineItems(self, value):
         for x in self._ErpInvoiceLineItems:
             x.ErpInvoice = None
+        self._ErpInvoiceLineItems = []
         for y in value:
-            y._ErpInvoice = self
-        self._ErpInvoiceLineItems = value
+            y.ErpInvoice = self
 
     ErpInvoiceLineItems = property(getErpInvoiceLineItems, setErpInvoiceLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py
index bf03a71..012a602 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py
@@ -278,9 +278,9 @@ class ErpInvoiceLineItem(Document):
     def setComponentErpInvoiceLineItems(self, value):
         for x in self._ComponentErpInvoiceLineItems:
             x.ContainerErpInvoiceLineItem = None
+        self._ComponentErpInvoiceLineItems = []
         for y in value:
-            y._ContainerErpInvoiceLineItem = self
-        self._ComponentErpInvoiceLineItems = value
+            y.ContainerErpInvoiceLineItem = self
 
     ComponentErpInvoiceLineItems = property(getComponentErpInvoiceLineItems, setComponentErpInvoiceLineItems)
 
@@ -364,9 +364,9 @@ class ErpInvoiceLineItem(Document):
     def setErpJournalEntries(self, value):
         for x in self._ErpJournalEntries:
             x.ErpInvoiceLineItem = None
+        self._ErpJournalEntries = []
         for y in value:
-            y._ErpInvoiceLineItem = self
-        self._ErpJournalEntries = value
+            y.ErpInvoiceLineItem = self
 
     ErpJournalEntries = property(getErpJournalEntries, setErpJournalEntries)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpJournal.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpJournal.py
index d351a44..eb85e7c 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpJournal.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpJournal.py
@@ -48,9 +48,9 @@ class ErpJournal(Document):
     def setErpJournalEntries(self, value):
         for x in self._ErpJournalEntries:
             x.ErpJournal = None
+        self._ErpJournalEntries = []
         for y in value:
-            y._ErpJournal = self
-        self._ErpJournalEntries = value
+            y.ErpJournal = self
 
     ErpJournalEntries = property(getErpJournalEntries, setErpJournalEntries)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedger.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedger.py
index 924694b..c7e0196 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedger.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedger.py
@@ -48,9 +48,9 @@ class ErpLedger(Document):
     def setErpLedgerEntries(self, value):
         for x in self._ErpLedgerEntries:
             x.ErpLedger = None
+        self._ErpLedgerEntries = []
         for y in value:
-            y._ErpLedger = self
-        self._ErpLedgerEntries = value
+            y.ErpLedger = self
 
     ErpLedgerEntries = property(getErpLedgerEntries, setErpLedgerEntries)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerBudget.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerBudget.py
index 794f492..6851b52 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerBudget.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerBudget.py
@@ -48,9 +48,9 @@ class ErpLedgerBudget(Document):
     def setErpLedBudLineItems(self, value):
         for x in self._ErpLedBudLineItems:
             x.ErpLedgerBudget = None
+        self._ErpLedBudLineItems = []
         for y in value:
-            y._ErpLedgerBudget = self
-        self._ErpLedBudLineItems = value
+            y.ErpLedgerBudget = self
 
     ErpLedBudLineItems = property(getErpLedBudLineItems, setErpLedBudLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py
index cb93f30..2f1ab2b 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py
@@ -124,9 +124,9 @@ class ErpOrganisation(Organisation):
     def setAssetRoles(self, value):
         for x in self._AssetRoles:
             x.ErpOrganisation = None
+        self._AssetRoles = []
         for y in value:
-            y._ErpOrganisation = self
-        self._AssetRoles = value
+            y.ErpOrganisation = self
 
     AssetRoles = property(getAssetRoles, setAssetRoles)
 
@@ -145,9 +145,9 @@ class ErpOrganisation(Organisation):
     def setRequests(self, value):
         for x in self._Requests:
             x.Organisation = None
+        self._Requests = []
         for y in value:
-            y._Organisation = self
-        self._Requests = value
+            y.Organisation = self
 
     Requests = property(getRequests, setRequests)
 
@@ -196,9 +196,9 @@ class ErpOrganisation(Organisation):
     def setChangeItems(self, value):
         for x in self._ChangeItems:
             x.Organisation = None
+        self._ChangeItems = []
         for y in value:
-            y._Organisation = self
-        self._ChangeItems = value
+            y.Organisation = self
 
     ChangeItems = property(getChangeItems, setChangeItems)
 
@@ -217,9 +217,9 @@ class ErpOrganisation(Organisation):
     def setErpPersonRoles(self, value):
         for x in self._ErpPersonRoles:
             x.ErpOrganisation = None
+        self._ErpPersonRoles = []
         for y in value:
-            y._ErpOrganisation = self
-        self._ErpPersonRoles = value
+            y.ErpOrganisation = self
 
     ErpPersonRoles = property(getErpPersonRoles, setErpPersonRoles)
 
@@ -268,9 +268,9 @@ class ErpOrganisation(Organisation):
     def setParentOrganisationRoles(self, value):
         for x in self._ParentOrganisationRoles:
             x.ChildOrganisation = None
+        self._ParentOrganisationRoles = []
         for y in value:
-            y._ChildOrganisation = self
-        self._ParentOrganisationRoles = value
+            y.ChildOrganisation = self
 
     ParentOrganisationRoles = property(getParentOrganisationRoles, setParentOrganisationRoles)
 
@@ -319,9 +319,9 @@ class ErpOrganisation(Organisation):
     def setChildOrganisationRoles(self, value):
         for x in self._ChildOrganisationRoles:
             x.ParentOrganisation = None
+        self._ChildOrganisationRoles = []
         for y in value:
-            y._ParentOrganisation = self
-        self._ChildOrganisationRoles = value
+            y.ParentOrganisation = self
 
     ChildOrganisationRoles = property(getChildOrganisationRoles, setChildOrganisationRoles)
 
@@ -340,9 +340,9 @@ class ErpOrganisation(Organisation):
     def setPowerSystemResourceRoles(self, value):
         for x in self._PowerSystemResourceRoles:
             x.ErpOrganisation = None
+        self._PowerSystemResourceRoles = []
         for y in value:
-            y._ErpOrganisation = self
-        self._PowerSystemResourceRoles = value
+            y.ErpOrganisation = self
 
     PowerSystemResourceRoles = property(getPowerSystemResourceRoles, setPowerSystemResourceRoles)
 
@@ -361,9 +361,9 @@ class ErpOrganisation(Organisation):
     def setLandPropertyRoles(self, value):
         for x in self._LandPropertyRoles:
             x.ErpOrganisation = None
+        self._LandPropertyRoles = []
         for y in value:
-            y._ErpOrganisation = self
-        self._LandPropertyRoles = value
+            y.ErpOrganisation = self
 
     LandPropertyRoles = property(getLandPropertyRoles, setLandPropertyRoles)
 
@@ -382,9 +382,9 @@ class ErpOrganisation(Organisation):
     def setDocumentRoles(self, value):
         for x in self._DocumentRoles:
             x.ErpOrganisation = None
+        self._DocumentRoles = []
         for y in value:
-            y._ErpOrganisation = self
-        self._DocumentRoles = value
+            y.ErpOrganisation = self
 
     DocumentRoles = property(getDocumentRoles, setDocumentRoles)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py
index 5c84a15..78a9a0d 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py
@@ -82,9 +82,9 @@ class ErpPayable(Document):
     def setErpPayableLineItems(self, value):
         for x in self._ErpPayableLineItems:
             x.ErpPayable = None
+        self._ErpPayableLineItems = []
         for y in value:
-            y._ErpPayable = self
-        self._ErpPayableLineItems = value
+            y.ErpPayable = self
 
     ErpPayableLineItems = property(getErpPayableLineItems, setErpPayableLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py
index 44fbed6..d66a70a 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py
@@ -172,9 +172,9 @@ class ErpPerson(IdentifiedObject):
     def setErpOrganisationRoles(self, value):
         for x in self._ErpOrganisationRoles:
             x.ErpPerson = None
+        self._ErpOrganisationRoles = []
         for y in value:
-            y._ErpPerson = self
-        self._ErpOrganisationRoles = value
+            y.ErpPerson = self
 
     ErpOrganisationRoles = property(getErpOrganisationRoles, setErpOrganisationRoles)
 
@@ -284,9 +284,9 @@ class ErpPerson(IdentifiedObject):
     def setLandPropertyRoles(self, value):
         for x in self._LandPropertyRoles:
             x.ErpPerson = None
+        self._LandPropertyRoles = []
         for y in value:
-            y._ErpPerson = self
-        self._LandPropertyRoles = value
+            y.ErpPerson = self
 
     LandPropertyRoles = property(getLandPropertyRoles, setLandPropertyRoles)
 
@@ -335,9 +335,9 @@ class ErpPerson(IdentifiedObject):
     def setMeasurementValues(self, value):
         for x in self._MeasurementValues:
             x.ErpPerson = None
+        self._MeasurementValues = []
         for y in value:
-            y._ErpPerson = self
-        self._MeasurementValues = value
+            y.ErpPerson = self
 
     MeasurementValues = property(getMeasurementValues, setMeasurementValues)
 
@@ -356,9 +356,9 @@ class ErpPerson(IdentifiedObject):
     def setSkills(self, value):
         for x in self._Skills:
             x.ErpPerson = None
+        self._Skills = []
         for y in value:
-            y._ErpPerson = self
-        self._Skills = value
+            y.ErpPerson = self
 
     Skills = property(getSkills, setSkills)
 
@@ -383,9 +383,9 @@ class ErpPerson(IdentifiedObject):
     def setChangeItems(self, value):
         for x in self._ChangeItems:
             x.ErpPerson = None
+        self._ChangeItems = []
         for y in value:
-            y._ErpPerson = self
-        self._ChangeItems = value
+            y.ErpPerson = self
 
     ChangeItems = property(getChangeItems, setChangeItems)
 
@@ -406,9 +406,9 @@ class ErpPerson(IdentifiedObject):
     def setDocumentRoles(self, value):
         for x in self._DocumentRoles:
             x.ErpPerson = None
+        self._DocumentRoles = []
         for y in value:
-            y._ErpPerson = self
-        self._DocumentRoles = value
+            y.ErpPerson = self
 
     DocumentRoles = property(getDocumentRoles, setDocumentRoles)
 
@@ -519,9 +519,9 @@ class ErpPerson(IdentifiedObject):
     def setSwitchingStepRoles(self, value):
         for x in self._SwitchingStepRoles:
             x.ErpPerson = None
+        self._SwitchingStepRoles = []
         for y in value:
-            y._ErpPerson = self
-        self._SwitchingStepRoles = value
+            y.ErpPerson = self
 
     SwitchingStepRoles = property(getSwitchingStepRoles, setSwitchingStepRoles)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPersonnel.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPersonnel.py
index ffe7e75..7865a15 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPersonnel.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPersonnel.py
@@ -53,9 +53,9 @@ class ErpPersonnel(IdentifiedObject):
     def setErpPersons(self, value):
         for x in self._ErpPersons:
             x.ErpPersonnel = None
+        self._ErpPersons = []
         for y in value:
-            y._ErpPersonnel = self
-        self._ErpPersons = value
+            y.ErpPersonnel = self
 
     ErpPersons = property(getErpPersons, setErpPersons)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpProjectAccounting.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpProjectAccounting.py
index 693fc46..2df0f5e 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpProjectAccounting.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpProjectAccounting.py
@@ -60,9 +60,9 @@ class ErpProjectAccounting(Document):
     def setWorks(self, value):
         for x in self._Works:
             x.ErpProjectAccounting = None
+        self._Works = []
         for y in value:
-            y._ErpProjectAccounting = self
-        self._Works = value
+            y.ErpProjectAccounting = self
 
     Works = property(getWorks, setWorks)
 
@@ -81,9 +81,9 @@ class ErpProjectAccounting(Document):
     def setProjects(self, value):
         for x in self._Projects:
             x.ErpProjectAccounting = None
+        self._Projects = []
         for y in value:
-            y._ErpProjectAccounting = self
-        self._Projects = value
+            y.ErpProjectAccounting = self
 
     Projects = property(getProjects, setProjects)
 
@@ -102,9 +102,9 @@ class ErpProjectAccounting(Document):
     def setErpTimeEntries(self, value):
         for x in self._ErpTimeEntries:
             x.ErpProjectAccounting = None
+        self._ErpTimeEntries = []
         for y in value:
-            y._ErpProjectAccounting = self
-        self._ErpTimeEntries = value
+            y.ErpProjectAccounting = self
 
     ErpTimeEntries = property(getErpTimeEntries, setErpTimeEntries)
 
@@ -123,9 +123,9 @@ class ErpProjectAccounting(Document):
     def setWorkCostDetails(self, value):
         for x in self._WorkCostDetails:
             x.ErpProjectAccounting = None
+        self._WorkCostDetails = []
         for y in value:
-            y._ErpProjectAccounting = self
-        self._WorkCostDetails = value
+            y.ErpProjectAccounting = self
 
     WorkCostDetails = property(getWorkCostDetails, setWorkCostDetails)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPurchaseOrder.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPurchaseOrder.py
index e6c4925..5446179 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPurchaseOrder.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPurchaseOrder.py
@@ -48,9 +48,9 @@ class ErpPurchaseOrder(Document):
     def setErpPOLineItems(self, value):
         for x in self._ErpPOLineItems:
             x.ErpPurchaseOrder = None
+        self._ErpPOLineItems = []
         for y in value:
-            y._ErpPurchaseOrder = self
-        self._ErpPOLineItems = value
+            y.ErpPurchaseOrder = self
 
     ErpPOLineItems = property(getErpPOLineItems, setErpPOLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpQuote.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpQuote.py
index 6b835d6..c851ef8 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpQuote.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpQuote.py
@@ -48,9 +48,9 @@ class ErpQuote(Document):
     def setErpQuoteLineItems(self, value):
         for x in self._ErpQuoteLineItems:
             x.ErpQuote = None
+        self._ErpQuoteLineItems = []
         for y in value:
-            y._ErpQuote = self
-        self._ErpQuoteLineItems = value
+            y.ErpQuote = self
 
     ErpQuoteLineItems = property(getErpQuoteLineItems, setErpQuoteLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpReceivable.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpReceivable.py
index a26a7ce..9eaf6da 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpReceivable.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpReceivable.py
@@ -48,9 +48,9 @@ class ErpReceivable(Document):
     def setErpRecLineItems(self, value):
         for x in self._ErpRecLineItems:
             x.ErpReceivable = None
+        self._ErpRecLineItems = []
         for y in value:
-            y._ErpReceivable = self
-        self._ErpRecLineItems = value
+            y.ErpReceivable = self
 
     ErpRecLineItems = property(getErpRecLineItems, setErpRecLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpReceiveDelivery.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpReceiveDelivery.py
index bf53e56..03ef437 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpReceiveDelivery.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpReceiveDelivery.py
@@ -48,9 +48,9 @@ class ErpReceiveDelivery(Document):
     def setErpRecDelvLineItems(self, value):
         for x in self._ErpRecDelvLineItems:
             x.ErpReceiveDelivery = None
+        self._ErpRecDelvLineItems = []
         for y in value:
-            y._ErpReceiveDelivery = self
-        self._ErpRecDelvLineItems = value
+            y.ErpReceiveDelivery = self
 
     ErpRecDelvLineItems = property(getErpRecDelvLineItems, setErpRecDelvLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpRequisition.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpRequisition.py
index 605fb05..76aee1a 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpRequisition.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpRequisition.py
@@ -48,9 +48,9 @@ class ErpRequisition(Document):
     def setErpReqLineItems(self, value):
         for x in self._ErpReqLineItems:
             x.ErpRequisition = None
+        self._ErpReqLineItems = []
         for y in value:
-            y._ErpRequisition = self
-        self._ErpReqLineItems = value
+            y.ErpRequisition = self
 
     ErpReqLineItems = property(getErpReqLineItems, setErpReqLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpTimeSheet.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpTimeSheet.py
index 8a38d9b..6bdc168 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpTimeSheet.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpTimeSheet.py
@@ -48,9 +48,9 @@ class ErpTimeSheet(Document):
     def setErpTimeEntries(self, value):
         for x in self._ErpTimeEntries:
             x.ErpTimeSheet = None
+        self._ErpTimeEntries = []
         for y in value:
-            y._ErpTimeSheet = self
-        self._ErpTimeEntries = value
+            y.ErpTimeSheet = self
 
     ErpTimeEntries = property(getErpTimeEntries, setErpTimeEntries)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py b/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py
index 7733bbe..b780cc7 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py
@@ -85,9 +85,9 @@ class Diagram(Document):
     def setDiagramObjects(self, value):
         for x in self._DiagramObjects:
             x.Diagram = None
+        self._DiagramObjects = []
         for y in value:
-            y._Diagram = self
-        self._DiagramObjects = value
+            y.Diagram = self
 
     DiagramObjects = property(getDiagramObjects, setDiagramObjects)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlBaseSymbol.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlBaseSymbol.py
index ecc88b7..1ab197d 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlBaseSymbol.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlBaseSymbol.py
@@ -48,9 +48,9 @@ class GmlBaseSymbol(IdentifiedObject):
     def setGmlSymbols(self, value):
         for x in self._GmlSymbols:
             x.GmlBaseSymbol = None
+        self._GmlSymbols = []
         for y in value:
-            y._GmlBaseSymbol = self
-        self._GmlSymbols = value
+            y.GmlBaseSymbol = self
 
     GmlSymbols = property(getGmlSymbols, setGmlSymbols)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlColour.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlColour.py
index 6d667f8..32a1af4 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlColour.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlColour.py
@@ -68,9 +68,9 @@ class GmlColour(IdentifiedObject):
     def setGmlFills(self, value):
         for x in self._GmlFills:
             x.GmlColour = None
+        self._GmlFills = []
         for y in value:
-            y._GmlColour = self
-        self._GmlFills = value
+            y.GmlColour = self
 
     GmlFills = property(getGmlFills, setGmlFills)
 
@@ -89,9 +89,9 @@ class GmlColour(IdentifiedObject):
     def setGmlFonts(self, value):
         for x in self._GmlFonts:
             x.GmlColour = None
+        self._GmlFonts = []
         for y in value:
-            y._GmlColour = self
-        self._GmlFonts = value
+            y.GmlColour = self
 
     GmlFonts = property(getGmlFonts, setGmlFonts)
 
@@ -110,9 +110,9 @@ class GmlColour(IdentifiedObject):
     def setGmlStrokes(self, value):
         for x in self._GmlStrokes:
             x.GmlColour = None
+        self._GmlStrokes = []
         for y in value:
-            y._GmlColour = self
-        self._GmlStrokes = value
+            y.GmlColour = self
 
     GmlStrokes = property(getGmlStrokes, setGmlStrokes)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py
index 5f4d737..02155ee 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py
@@ -170,9 +170,9 @@ class GmlDiagramObject(IdentifiedObject):
     def setGmlPointSymbols(self, value):
         for x in self._GmlPointSymbols:
             x.GmlDiagramObject = None
+        self._GmlPointSymbols = []
         for y in value:
-            y._GmlDiagramObject = self
-        self._GmlPointSymbols = value
+            y.GmlDiagramObject = self
 
     GmlPointSymbols = property(getGmlPointSymbols, setGmlPointSymbols)
 
@@ -191,9 +191,9 @@ class GmlDiagramObject(IdentifiedObject):
     def setGmlLineSymbols(self, value):
         for x in self._GmlLineSymbols:
             x.GmlDiagramObject = None
+        self._GmlLineSymbols = []
         for y in value:
-            y._GmlDiagramObject = self
-        self._GmlLineSymbols = value
+            y.GmlDiagramObject = self
 
     GmlLineSymbols = property(getGmlLineSymbols, setGmlLineSymbols)
 
@@ -212,9 +212,9 @@ class GmlDiagramObject(IdentifiedObject):
     def setGmlRasterSymbols(self, value):
         for x in self._GmlRasterSymbols:
             x.GmlDiagramObject = None
+        self._GmlRasterSymbols = []
         for y in value:
-            y._GmlDiagramObject = self
-        self._GmlRasterSymbols = value
+            y.GmlDiagramObject = self
 
     GmlRasterSymbols = property(getGmlRasterSymbols, setGmlRasterSymbols)
 
@@ -263,9 +263,9 @@ class GmlDiagramObject(IdentifiedObject):
     def setGmlTextSymbols(self, value):
         for x in self._GmlTextSymbols:
             x.GmlDiagramObject = None
+        self._GmlTextSymbols = []
         for y in value:
-            y._GmlDiagramObject = self
-        self._GmlTextSymbols = value
+            y.GmlDiagramObject = self
 
     GmlTextSymbols = property(getGmlTextSymbols, setGmlTextSymbols)
 
@@ -284,9 +284,9 @@ class GmlDiagramObject(IdentifiedObject):
     def setGmlPolygonSymbols(self, value):
         for x in self._GmlPolygonSymbols:
             x.GmlDiagramObject = None
+        self._GmlPolygonSymbols = []
         for y in value:
-            y._GmlDiagramObject = self
-        self._GmlPolygonSymbols = value
+            y.GmlDiagramObject = self
 
     GmlPolygonSymbols = property(getGmlPolygonSymbols, setGmlPolygonSymbols)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py
index 9835d82..0993af4 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py
@@ -92,9 +92,9 @@ class GmlFeatureStyle(IdentifiedObject):
     def setGmlGeometryStyles(self, value):
         for x in self._GmlGeometryStyles:
             x.GmlFeatureStyle = None
+        self._GmlGeometryStyles = []
         for y in value:
-            y._GmlFeatureStyle = self
-        self._GmlGeometryStyles = value
+            y.GmlFeatureStyle = self
 
     GmlGeometryStyles = property(getGmlGeometryStyles, setGmlGeometryStyles)
 
@@ -143,9 +143,9 @@ class GmlFeatureStyle(IdentifiedObject):
     def setGmlTobologyStyles(self, value):
         for x in self._GmlTobologyStyles:
             x.GmlFeatureStyle = None
+        self._GmlTobologyStyles = []
         for y in value:
-            y._GmlFeatureStyle = self
-        self._GmlTobologyStyles = value
+            y.GmlFeatureStyle = self
 
     GmlTobologyStyles = property(getGmlTobologyStyles, setGmlTobologyStyles)
 
@@ -164,9 +164,9 @@ class GmlFeatureStyle(IdentifiedObject):
     def setGmlLabelStyles(self, value):
         for x in self._GmlLabelStyles:
             x.GmlFeatureStyle = None
+        self._GmlLabelStyles = []
         for y in value:
-            y._GmlFeatureStyle = self
-        self._GmlLabelStyles = value
+            y.GmlFeatureStyle = self
 
     GmlLabelStyles = property(getGmlLabelStyles, setGmlLabelStyles)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py
index 25100bd..6d4b668 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py
@@ -114,9 +114,9 @@ class GmlFill(IdentifiedObject):
     def setGmlTextSymbols(self, value):
         for x in self._GmlTextSymbols:
             x.GmlFill = None
+        self._GmlTextSymbols = []
         for y in value:
-            y._GmlFill = self
-        self._GmlTextSymbols = value
+            y.GmlFill = self
 
     GmlTextSymbols = property(getGmlTextSymbols, setGmlTextSymbols)
 
@@ -165,9 +165,9 @@ class GmlFill(IdentifiedObject):
     def setGmlPolygonSymbols(self, value):
         for x in self._GmlPolygonSymbols:
             x.GmlFill = None
+        self._GmlPolygonSymbols = []
         for y in value:
-            y._GmlFill = self
-        self._GmlPolygonSymbols = value
+            y.GmlFill = self
 
     GmlPolygonSymbols = property(getGmlPolygonSymbols, setGmlPolygonSymbols)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py
index e7bdeff..440d304 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py
@@ -76,9 +76,9 @@ class GmlFont(IdentifiedObject):
     def setGmlTextSymbols(self, value):
         for x in self._GmlTextSymbols:
             x.GmlFont = None
+        self._GmlTextSymbols = []
         for y in value:
-            y._GmlFont = self
-        self._GmlTextSymbols = value
+            y.GmlFont = self
 
     GmlTextSymbols = property(getGmlTextSymbols, setGmlTextSymbols)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py
index 9186096..def4314 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py
@@ -110,9 +110,9 @@ class GmlGraphic(IdentifiedObject):
     def setGmlPointSymbols(self, value):
         for x in self._GmlPointSymbols:
             x.GmlGraphic = None
+        self._GmlPointSymbols = []
         for y in value:
-            y._GmlGraphic = self
-        self._GmlPointSymbols = value
+            y.GmlGraphic = self
 
     GmlPointSymbols = property(getGmlPointSymbols, setGmlPointSymbols)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlHalo.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlHalo.py
index 5b130bc..adf1043 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlHalo.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlHalo.py
@@ -56,9 +56,9 @@ class GmlHalo(IdentifiedObject):
     def setGmlTextSymbols(self, value):
         for x in self._GmlTextSymbols:
             x.GmlHalo = None
+        self._GmlTextSymbols = []
         for y in value:
-            y._GmlHalo = self
-        self._GmlTextSymbols = value
+            y.GmlHalo = self
 
     GmlTextSymbols = property(getGmlTextSymbols, setGmlTextSymbols)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlLabelPlacement.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlLabelPlacement.py
index c83aab9..2ebc14a 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlLabelPlacement.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlLabelPlacement.py
@@ -76,9 +76,9 @@ class GmlLabelPlacement(IdentifiedObject):
     def setGmlTextSymbols(self, value):
         for x in self._GmlTextSymbols:
             x.GmlLabelPlacement = None
+        self._GmlTextSymbols = []
         for y in value:
-            y._GmlLabelPlacement = self
-        self._GmlTextSymbols = value
+            y.GmlLabelPlacement = self
 
     GmlTextSymbols = property(getGmlTextSymbols, setGmlTextSymbols)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlLabelStyle.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlLabelStyle.py
index 6dba29d..1a7c97b 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlLabelStyle.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlLabelStyle.py
@@ -68,9 +68,9 @@ class GmlLabelStyle(IdentifiedObject):
     def setGmlTopologyStyles(self, value):
         for x in self._GmlTopologyStyles:
             x.GmlLableStyle = None
+        self._GmlTopologyStyles = []
         for y in value:
-            y._GmlLableStyle = self
-        self._GmlTopologyStyles = value
+            y.GmlLableStyle = self
 
     GmlTopologyStyles = property(getGmlTopologyStyles, setGmlTopologyStyles)
 
@@ -89,9 +89,9 @@ class GmlLabelStyle(IdentifiedObject):
     def setGmlGeometryStyles(self, value):
         for x in self._GmlGeometryStyles:
             x.GmlLabelStyle = None
+        self._GmlGeometryStyles = []
         for y in value:
-            y._GmlLabelStyle = self
-        self._GmlGeometryStyles = value
+            y.GmlLabelStyle = self
 
     GmlGeometryStyles = property(getGmlGeometryStyles, setGmlGeometryStyles)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py
index 645e5f3..126ba51 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py
@@ -102,9 +102,9 @@ class GmlObservation(Element):
     def setChangeItems(self, value):
         for x in self._ChangeItems:
             x.GmlObservation = None
+        self._ChangeItems = []
         for y in value:
-            y._GmlObservation = self
-        self._ChangeItems = value
+            y.GmlObservation = self
 
     ChangeItems = property(getChangeItems, setChangeItems)
 
@@ -123,9 +123,9 @@ class GmlObservation(Element):
     def setGmlValues(self, value):
         for x in self._GmlValues:
             x.GmlObservation = None
+        self._GmlValues = []
         for y in value:
-            y._GmlObservation = self
-        self._GmlValues = value
+            y.GmlObservation = self
 
     GmlValues = property(getGmlValues, setGmlValues)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py
index 77ac77c..5680da2 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py
@@ -52,9 +52,9 @@ class GmlSelector(IdentifiedObject):
     def setChangeItems(self, value):
         for x in self._ChangeItems:
             x.GmlSelector = None
+        self._ChangeItems = []
         for y in value:
-            y._GmlSelector = self
-        self._ChangeItems = value
+            y.GmlSelector = self
 
     ChangeItems = property(getChangeItems, setChangeItems)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py
index bf45946..4503f10 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py
@@ -108,9 +108,9 @@ class GmlStroke(IdentifiedObject):
     def setGmlPolygonSymbols(self, value):
         for x in self._GmlPolygonSymbols:
             x.GmlStroke = None
+        self._GmlPolygonSymbols = []
         for y in value:
-            y._GmlStroke = self
-        self._GmlPolygonSymbols = value
+            y.GmlStroke = self
 
     GmlPolygonSymbols = property(getGmlPolygonSymbols, setGmlPolygonSymbols)
 
@@ -189,9 +189,9 @@ class GmlStroke(IdentifiedObject):
     def setGmlLineSymbols(self, value):
         for x in self._GmlLineSymbols:
             x.GmlStroke = None
+        self._GmlLineSymbols = []
         for y in value:
-            y._GmlStroke = self
-        self._GmlLineSymbols = value
+            y.GmlStroke = self
 
     GmlLineSymbols = property(getGmlLineSymbols, setGmlLineSymbols)
 
diff --git a/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py b/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py
index c290536..b3ae8e3 100644
--- a/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py
+++ b/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py
@@ -106,9 +106,9 @@ class LoadMgmtFunction(EndDeviceFunction):
     def setLoadMgmtRecords(self, value):
         for x in self._LoadMgmtRecords:
             x.LoadMgmtFunction = None
+        self._LoadMgmtRecords = []
         for y in value:
-            y._LoadMgmtFunction = self
-        self._LoadMgmtRecords = value
+            y.LoadMgmtFunction = self
 
     LoadMgmtRecords = property(getLoadMgmtRecords, setLoadMgmtRecords)
 
diff --git a/CIM15/IEC61970/Informative/InfLocations/LandProperty.py b/CIM15/IEC61970/Informative/InfLocations/LandProperty.py
index 33e4d8f..29f667e 100644
--- a/CIM15/IEC61970/Informative/InfLocations/LandProperty.py
+++ b/CIM15/IEC61970/Informative/InfLocations/LandProperty.py
@@ -90,9 +90,9 @@ class LandProperty(IdentifiedObject):
     def setLocationGrants(self, value):
         for x in self._LocationGrants:
             x.LandProperty = None
+        self._LocationGrants = []
         for y in value:
-            y._LandProperty = self
-        self._LocationGrants = value
+            y.LandProperty = self
 
     LocationGrants = property(getLocationGrants, setLocationGrants)
 
@@ -111,9 +111,9 @@ class LandProperty(IdentifiedObject):
     def setErpSiteLevelDatas(self, value):
         for x in self._ErpSiteLevelDatas:
             x.LandProperty = None
+        self._ErpSiteLevelDatas = []
         for y in value:
-            y._LandProperty = self
-        self._ErpSiteLevelDatas = value
+            y.LandProperty = self
 
     ErpSiteLevelDatas = property(getErpSiteLevelDatas, setErpSiteLevelDatas)
 
@@ -132,9 +132,9 @@ class LandProperty(IdentifiedObject):
     def setErpPersonRoles(self, value):
         for x in self._ErpPersonRoles:
             x.LandProperty = None
+        self._ErpPersonRoles = []
         for y in value:
-            y._LandProperty = self
-        self._ErpPersonRoles = value
+            y.LandProperty = self
 
     ErpPersonRoles = property(getErpPersonRoles, setErpPersonRoles)
 
diff --git a/CIM15/IEC61970/Informative/InfLocations/Route.py b/CIM15/IEC61970/Informative/InfLocations/Route.py
index b7c67a1..50a7393 100644
--- a/CIM15/IEC61970/Informative/InfLocations/Route.py
+++ b/CIM15/IEC61970/Informative/InfLocations/Route.py
@@ -59,9 +59,9 @@ class Route(IdentifiedObject):
     def setCrews(self, value):
         for x in self._Crews:
             x.Route = None
+        self._Crews = []
         for y in value:
-            y._Route = self
-        self._Crews = value
+            y.Route = self
 
     Crews = property(getCrews, setCrews)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/CallBack.py b/CIM15/IEC61970/Informative/InfOperations/CallBack.py
index 5af8118..cf86eb8 100644
--- a/CIM15/IEC61970/Informative/InfOperations/CallBack.py
+++ b/CIM15/IEC61970/Informative/InfOperations/CallBack.py
@@ -79,9 +79,9 @@ class CallBack(IdentifiedObject):
     def setAppointments(self, value):
         for x in self._Appointments:
             x.CallBack = None
+        self._Appointments = []
         for y in value:
-            y._CallBack = self
-        self._Appointments = value
+            y.CallBack = self
 
     Appointments = property(getAppointments, setAppointments)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py b/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py
index 188a30b..96445aa 100644
--- a/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py
+++ b/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py
@@ -89,9 +89,9 @@ class ChangeSet(IdentifiedObject):
     def setChangeItems(self, value):
         for x in self._ChangeItems:
             x.ChangeSet = None
+        self._ChangeItems = []
         for y in value:
-            y._ChangeSet = self
-        self._ChangeItems = value
+            y.ChangeSet = self
 
     ChangeItems = property(getChangeItems, setChangeItems)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py b/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py
index 0ff21e2..6f9c2e7 100644
--- a/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py
+++ b/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py
@@ -56,9 +56,9 @@ class CircuitSection(IdentifiedObject):
     def setConductorAssets(self, value):
         for x in self._ConductorAssets:
             x.CircuitSection = None
+        self._ConductorAssets = []
         for y in value:
-            y._CircuitSection = self
-        self._ConductorAssets = value
+            y.CircuitSection = self
 
     ConductorAssets = property(getConductorAssets, setConductorAssets)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py b/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py
index 4010c43..a748876 100644
--- a/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py
+++ b/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py
@@ -55,9 +55,9 @@ class IncidentRecord(Document):
     def setTroubleTickets(self, value):
         for x in self._TroubleTickets:
             x.IncidentRecord = None
+        self._TroubleTickets = []
         for y in value:
-            y._IncidentRecord = self
-        self._TroubleTickets = value
+            y.IncidentRecord = self
 
     TroubleTickets = property(getTroubleTickets, setTroubleTickets)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py b/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py
index 69e62d8..a3ebb76 100644
--- a/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py
+++ b/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py
@@ -99,9 +99,9 @@ class NetworkDataSet(IdentifiedObject):
     def setChangeItems(self, value):
         for x in self._ChangeItems:
             x.NetworkDataSet = None
+        self._ChangeItems = []
         for y in value:
-            y._NetworkDataSet = self
-        self._ChangeItems = value
+            y.NetworkDataSet = self
 
     ChangeItems = property(getChangeItems, setChangeItems)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py b/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py
index f95adcd..425cf8b 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py
@@ -122,9 +122,9 @@ class OutageRecord(Document):
     def setOutageSteps(self, value):
         for x in self._OutageSteps:
             x.OutageRecord = None
+        self._OutageSteps = []
         for y in value:
-            y._OutageRecord = self
-        self._OutageSteps = value
+            y.OutageRecord = self
 
     OutageSteps = property(getOutageSteps, setOutageSteps)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageStep.py b/CIM15/IEC61970/Informative/InfOperations/OutageStep.py
index a07147c..be320cf 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageStep.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageStep.py
@@ -147,9 +147,9 @@ class OutageStep(IdentifiedObject):
     def setConductingEquipmentRoles(self, value):
         for x in self._ConductingEquipmentRoles:
             x.OutageStep = None
+        self._ConductingEquipmentRoles = []
         for y in value:
-            y._OutageStep = self
-        self._ConductingEquipmentRoles = value
+            y.OutageStep = self
 
     ConductingEquipmentRoles = property(getConductingEquipmentRoles, setConductingEquipmentRoles)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/PlannedOutage.py b/CIM15/IEC61970/Informative/InfOperations/PlannedOutage.py
index 4c27137..6fc3d86 100644
--- a/CIM15/IEC61970/Informative/InfOperations/PlannedOutage.py
+++ b/CIM15/IEC61970/Informative/InfOperations/PlannedOutage.py
@@ -57,9 +57,9 @@ class PlannedOutage(Document):
     def setCustomerDatas(self, value):
         for x in self._CustomerDatas:
             x.PlannedOutage = None
+        self._CustomerDatas = []
         for y in value:
-            y._PlannedOutage = self
-        self._CustomerDatas = value
+            y.PlannedOutage = self
 
     CustomerDatas = property(getCustomerDatas, setCustomerDatas)
 
@@ -78,9 +78,9 @@ class PlannedOutage(Document):
     def setOutageSchedules(self, value):
         for x in self._OutageSchedules:
             x.PlannedOutage = None
+        self._OutageSchedules = []
         for y in value:
-            y._PlannedOutage = self
-        self._OutageSchedules = value
+            y.PlannedOutage = self
 
     OutageSchedules = property(getOutageSchedules, setOutageSchedules)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/SafetyDocument.py b/CIM15/IEC61970/Informative/InfOperations/SafetyDocument.py
index c0a41d1..7b5324f 100644
--- a/CIM15/IEC61970/Informative/InfOperations/SafetyDocument.py
+++ b/CIM15/IEC61970/Informative/InfOperations/SafetyDocument.py
@@ -56,9 +56,9 @@ class SafetyDocument(Document):
     def setClearanceTags(self, value):
         for x in self._ClearanceTags:
             x.SafetyDocument = None
+        self._ClearanceTags = []
         for y in value:
-            y._SafetyDocument = self
-        self._ClearanceTags = value
+            y.SafetyDocument = self
 
     ClearanceTags = property(getClearanceTags, setClearanceTags)
 
@@ -77,9 +77,9 @@ class SafetyDocument(Document):
     def setScheduleSteps(self, value):
         for x in self._ScheduleSteps:
             x.SafetyDocument = None
+        self._ScheduleSteps = []
         for y in value:
-            y._SafetyDocument = self
-        self._ScheduleSteps = value
+            y.SafetyDocument = self
 
     ScheduleSteps = property(getScheduleSteps, setScheduleSteps)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py b/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py
index cdd11e8..63c82a0 100644
--- a/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py
+++ b/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py
@@ -63,9 +63,9 @@ class SwitchingSchedule(Document):
     def setScheduleSteps(self, value):
         for x in self._ScheduleSteps:
             x.SwitchingSchedule = None
+        self._ScheduleSteps = []
         for y in value:
-            y._SwitchingSchedule = self
-        self._ScheduleSteps = value
+            y.SwitchingSchedule = self
 
     ScheduleSteps = property(getScheduleSteps, setScheduleSteps)
 
diff --git a/CIM15/IEC61970/Informative/InfTypeAsset/TypeAssetCatalogue.py b/CIM15/IEC61970/Informative/InfTypeAsset/TypeAssetCatalogue.py
index 5fd068e..619e5f6 100644
--- a/CIM15/IEC61970/Informative/InfTypeAsset/TypeAssetCatalogue.py
+++ b/CIM15/IEC61970/Informative/InfTypeAsset/TypeAssetCatalogue.py
@@ -51,9 +51,9 @@ class TypeAssetCatalogue(IdentifiedObject):
     def setTypeAssets(self, value):
         for x in self._TypeAssets:
             x.TypeAssetCatalogue = None
+        self._TypeAssets = []
         for y in value:
-            y._TypeAssetCatalogue = self
-        self._TypeAssets = value
+            y.TypeAssetCatalogue = self
 
     TypeAssets = property(getTypeAssets, setTypeAssets)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/BusinessCase.py b/CIM15/IEC61970/Informative/InfWork/BusinessCase.py
index 671a683..bf087ad 100644
--- a/CIM15/IEC61970/Informative/InfWork/BusinessCase.py
+++ b/CIM15/IEC61970/Informative/InfWork/BusinessCase.py
@@ -56,9 +56,9 @@ class BusinessCase(Document):
     def setProjects(self, value):
         for x in self._Projects:
             x.BusinessCase = None
+        self._Projects = []
         for y in value:
-            y._BusinessCase = self
-        self._Projects = value
+            y.BusinessCase = self
 
     Projects = property(getProjects, setProjects)
 
@@ -77,9 +77,9 @@ class BusinessCase(Document):
     def setWorks(self, value):
         for x in self._Works:
             x.BusinessCase = None
+        self._Works = []
         for y in value:
-            y._BusinessCase = self
-        self._Works = value
+            y.BusinessCase = self
 
     Works = property(getWorks, setWorks)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CUAllowableAction.py b/CIM15/IEC61970/Informative/InfWork/CUAllowableAction.py
index 6404373..aa52197 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUAllowableAction.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUAllowableAction.py
@@ -51,9 +51,9 @@ class CUAllowableAction(IdentifiedObject):
     def setCompatibleUnits(self, value):
         for x in self._CompatibleUnits:
             x.CUAllowableAction = None
+        self._CompatibleUnits = []
         for y in value:
-            y._CUAllowableAction = self
-        self._CompatibleUnits = value
+            y.CUAllowableAction = self
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CUGroup.py b/CIM15/IEC61970/Informative/InfWork/CUGroup.py
index 1895137..b7a2c99 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUGroup.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUGroup.py
@@ -63,9 +63,9 @@ class CUGroup(IdentifiedObject):
     def setCompatibleUnits(self, value):
         for x in self._CompatibleUnits:
             x.CUGroup = None
+        self._CompatibleUnits = []
         for y in value:
-            y._CUGroup = self
-        self._CompatibleUnits = value
+            y.CUGroup = self
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CULaborCode.py b/CIM15/IEC61970/Informative/InfWork/CULaborCode.py
index 716a094..e0298f0 100644
--- a/CIM15/IEC61970/Informative/InfWork/CULaborCode.py
+++ b/CIM15/IEC61970/Informative/InfWork/CULaborCode.py
@@ -55,9 +55,9 @@ class CULaborCode(IdentifiedObject):
     def setCULaborItems(self, value):
         for x in self._CULaborItems:
             x.CULaborCode = None
+        self._CULaborItems = []
         for y in value:
-            y._CULaborCode = self
-        self._CULaborItems = value
+            y.CULaborCode = self
 
     CULaborItems = property(getCULaborItems, setCULaborItems)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CostType.py b/CIM15/IEC61970/Informative/InfWork/CostType.py
index fc8d6c8..03d3721 100644
--- a/CIM15/IEC61970/Informative/InfWork/CostType.py
+++ b/CIM15/IEC61970/Informative/InfWork/CostType.py
@@ -129,9 +129,9 @@ class CostType(IdentifiedObject):
     def setChildCostTypes(self, value):
         for x in self._ChildCostTypes:
             x.ParentCostType = None
+        self._ChildCostTypes = []
         for y in value:
-            y._ParentCostType = self
-        self._ChildCostTypes = value
+            y.ParentCostType = self
 
     ChildCostTypes = property(getChildCostTypes, setChildCostTypes)
 
@@ -150,9 +150,9 @@ class CostType(IdentifiedObject):
     def setWorkCostDetails(self, value):
         for x in self._WorkCostDetails:
             x.CostType = None
+        self._WorkCostDetails = []
         for y in value:
-            y._CostType = self
-        self._WorkCostDetails = value
+            y.CostType = self
 
     WorkCostDetails = property(getWorkCostDetails, setWorkCostDetails)
 
@@ -171,9 +171,9 @@ class CostType(IdentifiedObject):
     def setCompatibleUnits(self, value):
         for x in self._CompatibleUnits:
             x.CostType = None
+        self._CompatibleUnits = []
         for y in value:
-            y._CostType = self
-        self._CompatibleUnits = value
+            y.CostType = self
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Crew.py b/CIM15/IEC61970/Informative/InfWork/Crew.py
index 28f9022..8f0d595 100644
--- a/CIM15/IEC61970/Informative/InfWork/Crew.py
+++ b/CIM15/IEC61970/Informative/InfWork/Crew.py
@@ -100,9 +100,9 @@ class Crew(IdentifiedObject):
     def setTools(self, value):
         for x in self._Tools:
             x.Crew = None
+        self._Tools = []
         for y in value:
-            y._Crew = self
-        self._Tools = value
+            y.Crew = self
 
     Tools = property(getTools, setTools)
 
@@ -168,9 +168,9 @@ class Crew(IdentifiedObject):
     def setCapabilities(self, value):
         for x in self._Capabilities:
             x.Crew = None
+        self._Capabilities = []
         for y in value:
-            y._Crew = self
-        self._Capabilities = value
+            y.Crew = self
 
     Capabilities = property(getCapabilities, setCapabilities)
 
@@ -250,9 +250,9 @@ class Crew(IdentifiedObject):
     def setWorkEquipmentAssets(self, value):
         for x in self._WorkEquipmentAssets:
             x.Crew = None
+        self._WorkEquipmentAssets = []
         for y in value:
-            y._Crew = self
-        self._WorkEquipmentAssets = value
+            y.Crew = self
 
     WorkEquipmentAssets = property(getWorkEquipmentAssets, setWorkEquipmentAssets)
 
@@ -423,9 +423,9 @@ class Crew(IdentifiedObject):
     def setVehicles(self, value):
         for x in self._Vehicles:
             x.Crew = None
+        self._Vehicles = []
         for y in value:
-            y._Crew = self
-        self._Vehicles = value
+            y.Crew = self
 
     Vehicles = property(getVehicles, setVehicles)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Design.py b/CIM15/IEC61970/Informative/InfWork/Design.py
index edf21b4..e8185a7 100644
--- a/CIM15/IEC61970/Informative/InfWork/Design.py
+++ b/CIM15/IEC61970/Informative/InfWork/Design.py
@@ -118,9 +118,9 @@ class Design(Document):
     def setWorkCostDetails(self, value):
         for x in self._WorkCostDetails:
             x.Design = None
+        self._WorkCostDetails = []
         for y in value:
-            y._Design = self
-        self._WorkCostDetails = value
+            y.Design = self
 
     WorkCostDetails = property(getWorkCostDetails, setWorkCostDetails)
 
@@ -169,9 +169,9 @@ class Design(Document):
     def setWorkTasks(self, value):
         for x in self._WorkTasks:
             x.Design = None
+        self._WorkTasks = []
         for y in value:
-            y._Design = self
-        self._WorkTasks = value
+            y.Design = self
 
     WorkTasks = property(getWorkTasks, setWorkTasks)
 
@@ -190,9 +190,9 @@ class Design(Document):
     def setErpBOMs(self, value):
         for x in self._ErpBOMs:
             x.Design = None
+        self._ErpBOMs = []
         for y in value:
-            y._Design = self
-        self._ErpBOMs = value
+            y.Design = self
 
     ErpBOMs = property(getErpBOMs, setErpBOMs)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/DesignLocation.py b/CIM15/IEC61970/Informative/InfWork/DesignLocation.py
index 12b1891..829c6d8 100644
--- a/CIM15/IEC61970/Informative/InfWork/DesignLocation.py
+++ b/CIM15/IEC61970/Informative/InfWork/DesignLocation.py
@@ -85,9 +85,9 @@ class DesignLocation(IdentifiedObject):
     def setMaterialItems(self, value):
         for x in self._MaterialItems:
             x.DesignLocation = None
+        self._MaterialItems = []
         for y in value:
-            y._DesignLocation = self
-        self._MaterialItems = value
+            y.DesignLocation = self
 
     MaterialItems = property(getMaterialItems, setMaterialItems)
 
@@ -136,9 +136,9 @@ class DesignLocation(IdentifiedObject):
     def setDesignLocationCUs(self, value):
         for x in self._DesignLocationCUs:
             x.DesignLocation = None
+        self._DesignLocationCUs = []
         for y in value:
-            y._DesignLocation = self
-        self._DesignLocationCUs = value
+            y.DesignLocation = self
 
     DesignLocationCUs = property(getDesignLocationCUs, setDesignLocationCUs)
 
@@ -217,9 +217,9 @@ class DesignLocation(IdentifiedObject):
     def setMiscCostItems(self, value):
         for x in self._MiscCostItems:
             x.DesignLocation = None
+        self._MiscCostItems = []
         for y in value:
-            y._DesignLocation = self
-        self._MiscCostItems = value
+            y.DesignLocation = self
 
     MiscCostItems = property(getMiscCostItems, setMiscCostItems)
 
@@ -238,9 +238,9 @@ class DesignLocation(IdentifiedObject):
     def setErpBomItemDatas(self, value):
         for x in self._ErpBomItemDatas:
             x.DesignLocation = None
+        self._ErpBomItemDatas = []
         for y in value:
-            y._DesignLocation = self
-        self._ErpBomItemDatas = value
+            y.DesignLocation = self
 
     ErpBomItemDatas = property(getErpBomItemDatas, setErpBomItemDatas)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/InspectionDataSet.py b/CIM15/IEC61970/Informative/InfWork/InspectionDataSet.py
index fc88cd9..30bb56e 100644
--- a/CIM15/IEC61970/Informative/InfWork/InspectionDataSet.py
+++ b/CIM15/IEC61970/Informative/InfWork/InspectionDataSet.py
@@ -52,9 +52,9 @@ class InspectionDataSet(ProcedureDataSet):
     def setAccordingToSchedules(self, value):
         for x in self._AccordingToSchedules:
             x.ForInspectionDataSet = None
+        self._AccordingToSchedules = []
         for y in value:
-            y._ForInspectionDataSet = self
-        self._AccordingToSchedules = value
+            y.ForInspectionDataSet = self
 
     AccordingToSchedules = property(getAccordingToSchedules, setAccordingToSchedules)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/MaterialItem.py b/CIM15/IEC61970/Informative/InfWork/MaterialItem.py
index 4e33ae2..a261f9d 100644
--- a/CIM15/IEC61970/Informative/InfWork/MaterialItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/MaterialItem.py
@@ -107,9 +107,9 @@ class MaterialItem(IdentifiedObject):
     def setErpInventoryCounts(self, value):
         for x in self._ErpInventoryCounts:
             x.MaterialItem = None
+        self._ErpInventoryCounts = []
         for y in value:
-            y._MaterialItem = self
-        self._ErpInventoryCounts = value
+            y.MaterialItem = self
 
     ErpInventoryCounts = property(getErpInventoryCounts, setErpInventoryCounts)
 
@@ -128,9 +128,9 @@ class MaterialItem(IdentifiedObject):
     def setUsages(self, value):
         for x in self._Usages:
             x.MaterialItem = None
+        self._Usages = []
         for y in value:
-            y._MaterialItem = self
-        self._Usages = value
+            y.MaterialItem = self
 
     Usages = property(getUsages, setUsages)
 
@@ -149,9 +149,9 @@ class MaterialItem(IdentifiedObject):
     def setErpPOLineItems(self, value):
         for x in self._ErpPOLineItems:
             x.MaterialItem = None
+        self._ErpPOLineItems = []
         for y in value:
-            y._MaterialItem = self
-        self._ErpPOLineItems = value
+            y.MaterialItem = self
 
     ErpPOLineItems = property(getErpPOLineItems, setErpPOLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/OneCallRequest.py b/CIM15/IEC61970/Informative/InfWork/OneCallRequest.py
index 5db674e..550180d 100644
--- a/CIM15/IEC61970/Informative/InfWork/OneCallRequest.py
+++ b/CIM15/IEC61970/Informative/InfWork/OneCallRequest.py
@@ -60,9 +60,9 @@ class OneCallRequest(Document):
     def setWorkLocations(self, value):
         for x in self._WorkLocations:
             x.OneCallRequest = None
+        self._WorkLocations = []
         for y in value:
-            y._OneCallRequest = self
-        self._WorkLocations = value
+            y.OneCallRequest = self
 
     WorkLocations = property(getWorkLocations, setWorkLocations)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/OverheadCost.py b/CIM15/IEC61970/Informative/InfWork/OverheadCost.py
index c7d5cf4..9e876ea 100644
--- a/CIM15/IEC61970/Informative/InfWork/OverheadCost.py
+++ b/CIM15/IEC61970/Informative/InfWork/OverheadCost.py
@@ -65,9 +65,9 @@ class OverheadCost(IdentifiedObject):
     def setWorkCostDetails(self, value):
         for x in self._WorkCostDetails:
             x.OverheadCost = None
+        self._WorkCostDetails = []
         for y in value:
-            y._OverheadCost = self
-        self._WorkCostDetails = value
+            y.OverheadCost = self
 
     WorkCostDetails = property(getWorkCostDetails, setWorkCostDetails)
 
@@ -86,9 +86,9 @@ class OverheadCost(IdentifiedObject):
     def setWorkTasks(self, value):
         for x in self._WorkTasks:
             x.OverheadCost = None
+        self._WorkTasks = []
         for y in value:
-            y._OverheadCost = self
-        self._WorkTasks = value
+            y.OverheadCost = self
 
     WorkTasks = property(getWorkTasks, setWorkTasks)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Project.py b/CIM15/IEC61970/Informative/InfWork/Project.py
index a4b21c0..c0d5f14 100644
--- a/CIM15/IEC61970/Informative/InfWork/Project.py
+++ b/CIM15/IEC61970/Informative/InfWork/Project.py
@@ -88,9 +88,9 @@ class Project(Document):
     def setSubProjects(self, value):
         for x in self._SubProjects:
             x.ParentProject = None
+        self._SubProjects = []
         for y in value:
-            y._ParentProject = self
-        self._SubProjects = value
+            y.ParentProject = self
 
     SubProjects = property(getSubProjects, setSubProjects)
 
@@ -155,9 +155,9 @@ class Project(Document):
     def setWorks(self, value):
         for x in self._Works:
             x.Project = None
+        self._Works = []
         for y in value:
-            y._Project = self
-        self._Works = value
+            y.Project = self
 
     Works = property(getWorks, setWorks)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py b/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py
index e649c02..bbb7027 100644
--- a/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py
+++ b/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py
@@ -73,9 +73,9 @@ class PropertyUnit(IdentifiedObject):
     def setCompatibleUnits(self, value):
         for x in self._CompatibleUnits:
             x.PropertyUnit = None
+        self._CompatibleUnits = []
         for y in value:
-            y._PropertyUnit = self
-        self._CompatibleUnits = value
+            y.PropertyUnit = self
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Request.py b/CIM15/IEC61970/Informative/InfWork/Request.py
index 4125085..0551edc 100644
--- a/CIM15/IEC61970/Informative/InfWork/Request.py
+++ b/CIM15/IEC61970/Informative/InfWork/Request.py
@@ -133,9 +133,9 @@ class Request(Document):
     def setWorks(self, value):
         for x in self._Works:
             x.Request = None
+        self._Works = []
         for y in value:
-            y._Request = self
-        self._Works = value
+            y.Request = self
 
     Works = property(getWorks, setWorks)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/TypeMaterial.py b/CIM15/IEC61970/Informative/InfWork/TypeMaterial.py
index 2a02a46..c522591 100644
--- a/CIM15/IEC61970/Informative/InfWork/TypeMaterial.py
+++ b/CIM15/IEC61970/Informative/InfWork/TypeMaterial.py
@@ -76,9 +76,9 @@ class TypeMaterial(Document):
     def setErpIssueInventories(self, value):
         for x in self._ErpIssueInventories:
             x.TypeMaterial = None
+        self._ErpIssueInventories = []
         for y in value:
-            y._TypeMaterial = self
-        self._ErpIssueInventories = value
+            y.TypeMaterial = self
 
     ErpIssueInventories = property(getErpIssueInventories, setErpIssueInventories)
 
@@ -97,9 +97,9 @@ class TypeMaterial(Document):
     def setMaterialItems(self, value):
         for x in self._MaterialItems:
             x.TypeMaterial = None
+        self._MaterialItems = []
         for y in value:
-            y._TypeMaterial = self
-        self._MaterialItems = value
+            y.TypeMaterial = self
 
     MaterialItems = property(getMaterialItems, setMaterialItems)
 
@@ -118,9 +118,9 @@ class TypeMaterial(Document):
     def setCUMaterialItems(self, value):
         for x in self._CUMaterialItems:
             x.TypeMaterial = None
+        self._CUMaterialItems = []
         for y in value:
-            y._TypeMaterial = self
-        self._CUMaterialItems = value
+            y.TypeMaterial = self
 
     CUMaterialItems = property(getCUMaterialItems, setCUMaterialItems)
 
@@ -139,9 +139,9 @@ class TypeMaterial(Document):
     def setErpReqLineItems(self, value):
         for x in self._ErpReqLineItems:
             x.TypeMaterial = None
+        self._ErpReqLineItems = []
         for y in value:
-            y._TypeMaterial = self
-        self._ErpReqLineItems = value
+            y.TypeMaterial = self
 
     ErpReqLineItems = property(getErpReqLineItems, setErpReqLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py b/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py
index 8c0dc85..7ce436d 100644
--- a/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py
+++ b/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py
@@ -174,9 +174,9 @@ class WorkCostDetail(Document):
     def setMiscCostItems(self, value):
         for x in self._MiscCostItems:
             x.WorkCostDetail = None
+        self._MiscCostItems = []
         for y in value:
-            y._WorkCostDetail = self
-        self._MiscCostItems = value
+            y.WorkCostDetail = self
 
     MiscCostItems = property(getMiscCostItems, setMiscCostItems)
 
@@ -256,9 +256,9 @@ class WorkCostDetail(Document):
     def setLaborItems(self, value):
         for x in self._LaborItems:
             x.WorkCostDetail = None
+        self._LaborItems = []
         for y in value:
-            y._WorkCostDetail = self
-        self._LaborItems = value
+            y.WorkCostDetail = self
 
     LaborItems = property(getLaborItems, setLaborItems)
 
@@ -277,9 +277,9 @@ class WorkCostDetail(Document):
     def setMaterialItems(self, value):
         for x in self._MaterialItems:
             x.WorkCostDetail = None
+        self._MaterialItems = []
         for y in value:
-            y._WorkCostDetail = self
-        self._MaterialItems = value
+            y.WorkCostDetail = self
 
     MaterialItems = property(getMaterialItems, setMaterialItems)
 
@@ -298,9 +298,9 @@ class WorkCostDetail(Document):
     def setEquipmentItems(self, value):
         for x in self._EquipmentItems:
             x.WorkCostDetail = None
+        self._EquipmentItems = []
         for y in value:
-            y._WorkCostDetail = self
-        self._EquipmentItems = value
+            y.WorkCostDetail = self
 
     EquipmentItems = property(getEquipmentItems, setEquipmentItems)
 
@@ -319,9 +319,9 @@ class WorkCostDetail(Document):
     def setContractorItems(self, value):
         for x in self._ContractorItems:
             x.WorkCostDetail = None
+        self._ContractorItems = []
         for y in value:
-            y._WorkCostDetail = self
-        self._ContractorItems = value
+            y.WorkCostDetail = self
 
     ContractorItems = property(getContractorItems, setContractorItems)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/WorkFlowStep.py b/CIM15/IEC61970/Informative/InfWork/WorkFlowStep.py
index 44f84ec..35582cf 100644
--- a/CIM15/IEC61970/Informative/InfWork/WorkFlowStep.py
+++ b/CIM15/IEC61970/Informative/InfWork/WorkFlowStep.py
@@ -59,9 +59,9 @@ class WorkFlowStep(IdentifiedObject):
     def setWorkTasks(self, value):
         for x in self._WorkTasks:
             x.WorkFlowStep = None
+        self._WorkTasks = []
         for y in value:
-            y._WorkFlowStep = self
-        self._WorkTasks = value
+            y.WorkFlowStep = self
 
     WorkTasks = property(getWorkTasks, setWorkTasks)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/WorkTask.py b/CIM15/IEC61970/Informative/InfWork/WorkTask.py
index 6900f0c..255faf3 100644
--- a/CIM15/IEC61970/Informative/InfWork/WorkTask.py
+++ b/CIM15/IEC61970/Informative/InfWork/WorkTask.py
@@ -120,9 +120,9 @@ class WorkTask(Document):
     def setEquipmentItems(self, value):
         for x in self._EquipmentItems:
             x.WorkTask = None
+        self._EquipmentItems = []
         for y in value:
-            y._WorkTask = self
-        self._EquipmentItems = value
+            y.WorkTask = self
 
     EquipmentItems = property(getEquipmentItems, setEquipmentItems)
 
@@ -141,9 +141,9 @@ class WorkTask(Document):
     def setUsages(self, value):
         for x in self._Usages:
             x.WorkTask = None
+        self._Usages = []
         for y in value:
-            y._WorkTask = self
-        self._Usages = value
+            y.WorkTask = self
 
     Usages = property(getUsages, setUsages)
 
@@ -162,9 +162,9 @@ class WorkTask(Document):
     def setMiscCostItems(self, value):
         for x in self._MiscCostItems:
             x.WorkTask = None
+        self._MiscCostItems = []
         for y in value:
-            y._WorkTask = self
-        self._MiscCostItems = value
+            y.WorkTask = self
 
     MiscCostItems = property(getMiscCostItems, setMiscCostItems)
 
@@ -276,9 +276,9 @@ class WorkTask(Document):
     def setContractorItems(self, value):
         for x in self._ContractorItems:
             x.WorkTask = None
+        self._ContractorItems = []
         for y in value:
-            y._WorkTask = self
-        self._ContractorItems = value
+            y.WorkTask = self
 
     ContractorItems = property(getContractorItems, setContractorItems)
 
@@ -297,9 +297,9 @@ class WorkTask(Document):
     def setSwitchingSchedules(self, value):
         for x in self._SwitchingSchedules:
             x.WorkTask = None
+        self._SwitchingSchedules = []
         for y in value:
-            y._WorkTask = self
-        self._SwitchingSchedules = value
+            y.WorkTask = self
 
     SwitchingSchedules = property(getSwitchingSchedules, setSwitchingSchedules)
 
@@ -410,9 +410,9 @@ class WorkTask(Document):
     def setWorkCostDetails(self, value):
         for x in self._WorkCostDetails:
             x.WorkTask = None
+        self._WorkCostDetails = []
         for y in value:
-            y._WorkTask = self
-        self._WorkCostDetails = value
+            y.WorkTask = self
 
     WorkCostDetails = property(getWorkCostDetails, setWorkCostDetails)
 
@@ -431,9 +431,9 @@ class WorkTask(Document):
     def setAssets(self, value):
         for x in self._Assets:
             x.WorkTask = None
+        self._Assets = []
         for y in value:
-            y._WorkTask = self
-        self._Assets = value
+            y.WorkTask = self
 
     Assets = property(getAssets, setAssets)
 
@@ -452,9 +452,9 @@ class WorkTask(Document):
     def setLaborItems(self, value):
         for x in self._LaborItems:
             x.WorkTask = None
+        self._LaborItems = []
         for y in value:
-            y._WorkTask = self
-        self._LaborItems = value
+            y.WorkTask = self
 
     LaborItems = property(getLaborItems, setLaborItems)
 
@@ -473,9 +473,9 @@ class WorkTask(Document):
     def setMaterialItems(self, value):
         for x in self._MaterialItems:
             x.WorkTask = None
+        self._MaterialItems = []
         for y in value:
-            y._WorkTask = self
-        self._MaterialItems = value
+            y.WorkTask = self
 
     MaterialItems = property(getMaterialItems, setMaterialItems)
 
diff --git a/CIM15/IEC61970/LoadModel/ConformLoadGroup.py b/CIM15/IEC61970/LoadModel/ConformLoadGroup.py
index c45331b..49046b0 100644
--- a/CIM15/IEC61970/LoadModel/ConformLoadGroup.py
+++ b/CIM15/IEC61970/LoadModel/ConformLoadGroup.py
@@ -53,9 +53,9 @@ class ConformLoadGroup(LoadGroup):
     def setConformLoadSchedules(self, value):
         for x in self._ConformLoadSchedules:
             x.ConformLoadGroup = None
+        self._ConformLoadSchedules = []
         for y in value:
-            y._ConformLoadGroup = self
-        self._ConformLoadSchedules = value
+            y.ConformLoadGroup = self
 
     ConformLoadSchedules = property(getConformLoadSchedules, setConformLoadSchedules)
 
@@ -75,9 +75,9 @@ class ConformLoadGroup(LoadGroup):
     def setEnergyConsumers(self, value):
         for x in self._EnergyConsumers:
             x.LoadGroup = None
+        self._EnergyConsumers = []
         for y in value:
-            y._LoadGroup = self
-        self._EnergyConsumers = value
+            y.LoadGroup = self
 
     EnergyConsumers = property(getEnergyConsumers, setEnergyConsumers)
 
diff --git a/CIM15/IEC61970/LoadModel/DayType.py b/CIM15/IEC61970/LoadModel/DayType.py
index c0bf37f..e55b5af 100644
--- a/CIM15/IEC61970/LoadModel/DayType.py
+++ b/CIM15/IEC61970/LoadModel/DayType.py
@@ -49,9 +49,9 @@ class DayType(IdentifiedObject):
     def setSeasonDayTypeSchedules(self, value):
         for x in self._SeasonDayTypeSchedules:
             x.DayType = None
+        self._SeasonDayTypeSchedules = []
         for y in value:
-            y._DayType = self
-        self._SeasonDayTypeSchedules = value
+            y.DayType = self
 
     SeasonDayTypeSchedules = property(getSeasonDayTypeSchedules, setSeasonDayTypeSchedules)
 
diff --git a/CIM15/IEC61970/LoadModel/LoadArea.py b/CIM15/IEC61970/LoadModel/LoadArea.py
index b4e4a91..3f7b64b 100644
--- a/CIM15/IEC61970/LoadModel/LoadArea.py
+++ b/CIM15/IEC61970/LoadModel/LoadArea.py
@@ -49,9 +49,9 @@ class LoadArea(EnergyArea):
     def setSubLoadAreas(self, value):
         for x in self._SubLoadAreas:
             x.LoadArea = None
+        self._SubLoadAreas = []
         for y in value:
-            y._LoadArea = self
-        self._SubLoadAreas = value
+            y.LoadArea = self
 
     SubLoadAreas = property(getSubLoadAreas, setSubLoadAreas)
 
diff --git a/CIM15/IEC61970/LoadModel/LoadResponseCharacteristic.py b/CIM15/IEC61970/LoadModel/LoadResponseCharacteristic.py
index aa1635e..41d435a 100644
--- a/CIM15/IEC61970/LoadModel/LoadResponseCharacteristic.py
+++ b/CIM15/IEC61970/LoadModel/LoadResponseCharacteristic.py
@@ -93,9 +93,9 @@ class LoadResponseCharacteristic(IdentifiedObject):
     def setEnergyConsumer(self, value):
         for x in self._EnergyConsumer:
             x.LoadResponse = None
+        self._EnergyConsumer = []
         for y in value:
-            y._LoadResponse = self
-        self._EnergyConsumer = value
+            y.LoadResponse = self
 
     EnergyConsumer = property(getEnergyConsumer, setEnergyConsumer)
 
diff --git a/CIM15/IEC61970/LoadModel/NonConformLoadGroup.py b/CIM15/IEC61970/LoadModel/NonConformLoadGroup.py
index 4407e27..2255375 100644
--- a/CIM15/IEC61970/LoadModel/NonConformLoadGroup.py
+++ b/CIM15/IEC61970/LoadModel/NonConformLoadGroup.py
@@ -53,9 +53,9 @@ class NonConformLoadGroup(LoadGroup):
     def setNonConformLoadSchedules(self, value):
         for x in self._NonConformLoadSchedules:
             x.NonConformLoadGroup = None
+        self._NonConformLoadSchedules = []
         for y in value:
-            y._NonConformLoadGroup = self
-        self._NonConformLoadSchedules = value
+            y.NonConformLoadGroup = self
 
     NonConformLoadSchedules = property(getNonConformLoadSchedules, setNonConformLoadSchedules)
 
@@ -75,9 +75,9 @@ class NonConformLoadGroup(LoadGroup):
     def setEnergyConsumers(self, value):
         for x in self._EnergyConsumers:
             x.LoadGroup = None
+        self._EnergyConsumers = []
         for y in value:
-            y._LoadGroup = self
-        self._EnergyConsumers = value
+            y.LoadGroup = self
 
     EnergyConsumers = property(getEnergyConsumers, setEnergyConsumers)
 
diff --git a/CIM15/IEC61970/LoadModel/PowerCutZone.py b/CIM15/IEC61970/LoadModel/PowerCutZone.py
index c2d5c1b..bffd13f 100644
--- a/CIM15/IEC61970/LoadModel/PowerCutZone.py
+++ b/CIM15/IEC61970/LoadModel/PowerCutZone.py
@@ -57,9 +57,9 @@ class PowerCutZone(PowerSystemResource):
     def setEnergyConsumers(self, value):
         for x in self._EnergyConsumers:
             x.PowerCutZone = None
+        self._EnergyConsumers = []
         for y in value:
-            y._PowerCutZone = self
-        self._EnergyConsumers = value
+            y.PowerCutZone = self
 
     EnergyConsumers = property(getEnergyConsumers, setEnergyConsumers)
 
diff --git a/CIM15/IEC61970/LoadModel/Season.py b/CIM15/IEC61970/LoadModel/Season.py
index 12ab6e5..1504c53 100644
--- a/CIM15/IEC61970/LoadModel/Season.py
+++ b/CIM15/IEC61970/LoadModel/Season.py
@@ -61,9 +61,9 @@ class Season(Element):
     def setSeasonDayTypeSchedules(self, value):
         for x in self._SeasonDayTypeSchedules:
             x.Season = None
+        self._SeasonDayTypeSchedules = []
         for y in value:
-            y._Season = self
-        self._SeasonDayTypeSchedules = value
+            y.Season = self
 
     SeasonDayTypeSchedules = property(getSeasonDayTypeSchedules, setSeasonDayTypeSchedules)
 
diff --git a/CIM15/IEC61970/LoadModel/SubLoadArea.py b/CIM15/IEC61970/LoadModel/SubLoadArea.py
index 0fdefcc..a897041 100644
--- a/CIM15/IEC61970/LoadModel/SubLoadArea.py
+++ b/CIM15/IEC61970/LoadModel/SubLoadArea.py
@@ -53,9 +53,9 @@ class SubLoadArea(EnergyArea):
     def setLoadGroups(self, value):
         for x in self._LoadGroups:
             x.SubLoadArea = None
+        self._LoadGroups = []
         for y in value:
-            y._SubLoadArea = self
-        self._LoadGroups = value
+            y.SubLoadArea = self
 
     LoadGroups = property(getLoadGroups, setLoadGroups)
 
diff --git a/CIM15/IEC61970/Meas/Accumulator.py b/CIM15/IEC61970/Meas/Accumulator.py
index afca00a..95ca599 100644
--- a/CIM15/IEC61970/Meas/Accumulator.py
+++ b/CIM15/IEC61970/Meas/Accumulator.py
@@ -88,9 +88,9 @@ class Accumulator(Measurement):
     def setAccumulatorValues(self, value):
         for x in self._AccumulatorValues:
             x.Accumulator = None
+        self._AccumulatorValues = []
         for y in value:
-            y._Accumulator = self
-        self._AccumulatorValues = value
+            y.Accumulator = self
 
     AccumulatorValues = property(getAccumulatorValues, setAccumulatorValues)
 
diff --git a/CIM15/IEC61970/Meas/AccumulatorLimitSet.py b/CIM15/IEC61970/Meas/AccumulatorLimitSet.py
index 681ec99..ed78c74 100644
--- a/CIM15/IEC61970/Meas/AccumulatorLimitSet.py
+++ b/CIM15/IEC61970/Meas/AccumulatorLimitSet.py
@@ -53,9 +53,9 @@ class AccumulatorLimitSet(LimitSet):
     def setLimits(self, value):
         for x in self._Limits:
             x.LimitSet = None
+        self._Limits = []
         for y in value:
-            y._LimitSet = self
-        self._Limits = value
+            y.LimitSet = self
 
     Limits = property(getLimits, setLimits)
 
diff --git a/CIM15/IEC61970/Meas/Analog.py b/CIM15/IEC61970/Meas/Analog.py
index 267e0be..9b60246 100644
--- a/CIM15/IEC61970/Meas/Analog.py
+++ b/CIM15/IEC61970/Meas/Analog.py
@@ -104,9 +104,9 @@ class Analog(Measurement):
     def setAnalogValues(self, value):
         for x in self._AnalogValues:
             x.Analog = None
+        self._AnalogValues = []
         for y in value:
-            y._Analog = self
-        self._AnalogValues = value
+            y.Analog = self
 
     AnalogValues = property(getAnalogValues, setAnalogValues)
 
diff --git a/CIM15/IEC61970/Meas/AnalogLimitSet.py b/CIM15/IEC61970/Meas/AnalogLimitSet.py
index 6b08b8d..df14699 100644
--- a/CIM15/IEC61970/Meas/AnalogLimitSet.py
+++ b/CIM15/IEC61970/Meas/AnalogLimitSet.py
@@ -53,9 +53,9 @@ class AnalogLimitSet(LimitSet):
     def setLimits(self, value):
         for x in self._Limits:
             x.LimitSet = None
+        self._Limits = []
         for y in value:
-            y._LimitSet = self
-        self._Limits = value
+            y.LimitSet = self
 
     Limits = property(getLimits, setLimits)
 
diff --git a/CIM15/IEC61970/Meas/AnalogValue.py b/CIM15/IEC61970/Meas/AnalogValue.py
index b490fa7..ce95e6b 100644
--- a/CIM15/IEC61970/Meas/AnalogValue.py
+++ b/CIM15/IEC61970/Meas/AnalogValue.py
@@ -61,9 +61,9 @@ class AnalogValue(MeasurementValue):
     def setAltTieMeas(self, value):
         for x in self._AltTieMeas:
             x.AnalogValue = None
+        self._AltTieMeas = []
         for y in value:
-            y._AnalogValue = self
-        self._AltTieMeas = value
+            y.AnalogValue = self
 
     AltTieMeas = property(getAltTieMeas, setAltTieMeas)
 
@@ -100,9 +100,9 @@ class AnalogValue(MeasurementValue):
     def setAltGeneratingUnit(self, value):
         for x in self._AltGeneratingUnit:
             x.AnalogValue = None
+        self._AltGeneratingUnit = []
         for y in value:
-            y._AnalogValue = self
-        self._AltGeneratingUnit = value
+            y.AnalogValue = self
 
     AltGeneratingUnit = property(getAltGeneratingUnit, setAltGeneratingUnit)
 
diff --git a/CIM15/IEC61970/Meas/ControlType.py b/CIM15/IEC61970/Meas/ControlType.py
index cc8ac40..e826412 100644
--- a/CIM15/IEC61970/Meas/ControlType.py
+++ b/CIM15/IEC61970/Meas/ControlType.py
@@ -49,9 +49,9 @@ class ControlType(IdentifiedObject):
     def setControls(self, value):
         for x in self._Controls:
             x.ControlType = None
+        self._Controls = []
         for y in value:
-            y._ControlType = self
-        self._Controls = value
+            y.ControlType = self
 
     Controls = property(getControls, setControls)
 
diff --git a/CIM15/IEC61970/Meas/Discrete.py b/CIM15/IEC61970/Meas/Discrete.py
index 1c66f7b..5e6d696 100644
--- a/CIM15/IEC61970/Meas/Discrete.py
+++ b/CIM15/IEC61970/Meas/Discrete.py
@@ -85,9 +85,9 @@ class Discrete(Measurement):
     def setDiscreteValues(self, value):
         for x in self._DiscreteValues:
             x.Discrete = None
+        self._DiscreteValues = []
         for y in value:
-            y._Discrete = self
-        self._DiscreteValues = value
+            y.Discrete = self
 
     DiscreteValues = property(getDiscreteValues, setDiscreteValues)
 
diff --git a/CIM15/IEC61970/Meas/MeasurementValue.py b/CIM15/IEC61970/Meas/MeasurementValue.py
index 057159e..6cc85af 100644
--- a/CIM15/IEC61970/Meas/MeasurementValue.py
+++ b/CIM15/IEC61970/Meas/MeasurementValue.py
@@ -76,9 +76,9 @@ class MeasurementValue(IdentifiedObject):
     def setGmlValues(self, value):
         for x in self._GmlValues:
             x.MeasurementValue = None
+        self._GmlValues = []
         for y in value:
-            y._MeasurementValue = self
-        self._GmlValues = value
+            y.MeasurementValue = self
 
     GmlValues = property(getGmlValues, setGmlValues)
 
diff --git a/CIM15/IEC61970/Meas/MeasurementValueSource.py b/CIM15/IEC61970/Meas/MeasurementValueSource.py
index de0b6d0..b68b1ec 100644
--- a/CIM15/IEC61970/Meas/MeasurementValueSource.py
+++ b/CIM15/IEC61970/Meas/MeasurementValueSource.py
@@ -49,9 +49,9 @@ class MeasurementValueSource(IdentifiedObject):
     def setMeasurementValues(self, value):
         for x in self._MeasurementValues:
             x.MeasurementValueSource = None
+        self._MeasurementValues = []
         for y in value:
-            y._MeasurementValueSource = self
-        self._MeasurementValues = value
+            y.MeasurementValueSource = self
 
     MeasurementValues = property(getMeasurementValues, setMeasurementValues)
 
diff --git a/CIM15/IEC61970/Meas/StringMeasurement.py b/CIM15/IEC61970/Meas/StringMeasurement.py
index 573038c..e921b56 100644
--- a/CIM15/IEC61970/Meas/StringMeasurement.py
+++ b/CIM15/IEC61970/Meas/StringMeasurement.py
@@ -49,9 +49,9 @@ class StringMeasurement(Measurement):
     def setStringMeasurementValues(self, value):
         for x in self._StringMeasurementValues:
             x.StringMeasurement = None
+        self._StringMeasurementValues = []
         for y in value:
-            y._StringMeasurement = self
-        self._StringMeasurementValues = value
+            y.StringMeasurement = self
 
     StringMeasurementValues = property(getStringMeasurementValues, setStringMeasurementValues)
 
diff --git a/CIM15/IEC61970/Meas/ValueAliasSet.py b/CIM15/IEC61970/Meas/ValueAliasSet.py
index 59ad59f..acb62b3 100644
--- a/CIM15/IEC61970/Meas/ValueAliasSet.py
+++ b/CIM15/IEC61970/Meas/ValueAliasSet.py
@@ -57,9 +57,9 @@ class ValueAliasSet(IdentifiedObject):
     def setDiscretes(self, value):
         for x in self._Discretes:
             x.ValueAliasSet = None
+        self._Discretes = []
         for y in value:
-            y._ValueAliasSet = self
-        self._Discretes = value
+            y.ValueAliasSet = self
 
     Discretes = property(getDiscretes, setDiscretes)
 
@@ -79,9 +79,9 @@ class ValueAliasSet(IdentifiedObject):
     def setCommands(self, value):
         for x in self._Commands:
             x.ValueAliasSet = None
+        self._Commands = []
         for y in value:
-            y._ValueAliasSet = self
-        self._Commands = value
+            y.ValueAliasSet = self
 
     Commands = property(getCommands, setCommands)
 
@@ -101,9 +101,9 @@ class ValueAliasSet(IdentifiedObject):
     def setValues(self, value):
         for x in self._Values:
             x.ValueAliasSet = None
+        self._Values = []
         for y in value:
-            y._ValueAliasSet = self
-        self._Values = value
+            y.ValueAliasSet = self
 
     Values = property(getValues, setValues)
 
diff --git a/CIM15/IEC61970/OperationalLimits/ActivePowerLimitSet.py b/CIM15/IEC61970/OperationalLimits/ActivePowerLimitSet.py
index 7958149..22b685c 100644
--- a/CIM15/IEC61970/OperationalLimits/ActivePowerLimitSet.py
+++ b/CIM15/IEC61970/OperationalLimits/ActivePowerLimitSet.py
@@ -46,9 +46,9 @@ class ActivePowerLimitSet(OperationalLimitSet):
     def setActivePowerLimits(self, value):
         for x in self._ActivePowerLimits:
             x.ActivePowerLimitSet = None
+        self._ActivePowerLimits = []
         for y in value:
-            y._ActivePowerLimitSet = self
-        self._ActivePowerLimits = value
+            y.ActivePowerLimitSet = self
 
     ActivePowerLimits = property(getActivePowerLimits, setActivePowerLimits)
 
diff --git a/CIM15/IEC61970/OperationalLimits/ApparentPowerLimitSet.py b/CIM15/IEC61970/OperationalLimits/ApparentPowerLimitSet.py
index af83c98..ff4e8ec 100644
--- a/CIM15/IEC61970/OperationalLimits/ApparentPowerLimitSet.py
+++ b/CIM15/IEC61970/OperationalLimits/ApparentPowerLimitSet.py
@@ -46,9 +46,9 @@ class ApparentPowerLimitSet(OperationalLimitSet):
     def setApparentPowerLimits(self, value):
         for x in self._ApparentPowerLimits:
             x.ApparentPowerLimitSet = None
+        self._ApparentPowerLimits = []
         for y in value:
-            y._ApparentPowerLimitSet = self
-        self._ApparentPowerLimits = value
+            y.ApparentPowerLimitSet = self
 
     ApparentPowerLimits = property(getApparentPowerLimits, setApparentPowerLimits)
 
diff --git a/CIM15/IEC61970/OperationalLimits/BranchGroup.py b/CIM15/IEC61970/OperationalLimits/BranchGroup.py
index 7b08dc0..3d71981 100644
--- a/CIM15/IEC61970/OperationalLimits/BranchGroup.py
+++ b/CIM15/IEC61970/OperationalLimits/BranchGroup.py
@@ -73,9 +73,9 @@ class BranchGroup(IdentifiedObject):
     def setBranchGroupTerminal(self, value):
         for x in self._BranchGroupTerminal:
             x.BranchGroup = None
+        self._BranchGroupTerminal = []
         for y in value:
-            y._BranchGroup = self
-        self._BranchGroupTerminal = value
+            y.BranchGroup = self
 
     BranchGroupTerminal = property(getBranchGroupTerminal, setBranchGroupTerminal)
 
diff --git a/CIM15/IEC61970/OperationalLimits/CurrentLimitSet.py b/CIM15/IEC61970/OperationalLimits/CurrentLimitSet.py
index 767e5c3..7f6159f 100644
--- a/CIM15/IEC61970/OperationalLimits/CurrentLimitSet.py
+++ b/CIM15/IEC61970/OperationalLimits/CurrentLimitSet.py
@@ -46,9 +46,9 @@ class CurrentLimitSet(OperationalLimitSet):
     def setCurrentLimits(self, value):
         for x in self._CurrentLimits:
             x.CurrentLimitSet = None
+        self._CurrentLimits = []
         for y in value:
-            y._CurrentLimitSet = self
-        self._CurrentLimits = value
+            y.CurrentLimitSet = self
 
     CurrentLimits = property(getCurrentLimits, setCurrentLimits)
 
diff --git a/CIM15/IEC61970/OperationalLimits/OperationalLimitSet.py b/CIM15/IEC61970/OperationalLimits/OperationalLimitSet.py
index cef4042..62d90c3 100644
--- a/CIM15/IEC61970/OperationalLimits/OperationalLimitSet.py
+++ b/CIM15/IEC61970/OperationalLimits/OperationalLimitSet.py
@@ -70,9 +70,9 @@ class OperationalLimitSet(IdentifiedObject):
     def setOperationalLimitValue(self, value):
         for x in self._OperationalLimitValue:
             x.OperationalLimitSet = None
+        self._OperationalLimitValue = []
         for y in value:
-            y._OperationalLimitSet = self
-        self._OperationalLimitValue = value
+            y.OperationalLimitSet = self
 
     OperationalLimitValue = property(getOperationalLimitValue, setOperationalLimitValue)
 
diff --git a/CIM15/IEC61970/OperationalLimits/OperationalLimitType.py b/CIM15/IEC61970/OperationalLimits/OperationalLimitType.py
index 599abc9..c55ea6f 100644
--- a/CIM15/IEC61970/OperationalLimits/OperationalLimitType.py
+++ b/CIM15/IEC61970/OperationalLimits/OperationalLimitType.py
@@ -57,9 +57,9 @@ class OperationalLimitType(IdentifiedObject):
     def setOperationalLimit(self, value):
         for x in self._OperationalLimit:
             x.OperationalLimitType = None
+        self._OperationalLimit = []
         for y in value:
-            y._OperationalLimitType = self
-        self._OperationalLimit = value
+            y.OperationalLimitType = self
 
     OperationalLimit = property(getOperationalLimit, setOperationalLimit)
 
diff --git a/CIM15/IEC61970/OperationalLimits/VoltageLimitSet.py b/CIM15/IEC61970/OperationalLimits/VoltageLimitSet.py
index c4509a5..c0bb7a2 100644
--- a/CIM15/IEC61970/OperationalLimits/VoltageLimitSet.py
+++ b/CIM15/IEC61970/OperationalLimits/VoltageLimitSet.py
@@ -46,9 +46,9 @@ class VoltageLimitSet(OperationalLimitSet):
     def setVoltageLimits(self, value):
         for x in self._VoltageLimits:
             x.VoltageLimitSet = None
+        self._VoltageLimits = []
         for y in value:
-            y._VoltageLimitSet = self
-        self._VoltageLimits = value
+            y.VoltageLimitSet = self
 
     VoltageLimits = property(getVoltageLimits, setVoltageLimits)
 
diff --git a/CIM15/IEC61970/Outage/ClearanceTagType.py b/CIM15/IEC61970/Outage/ClearanceTagType.py
index 3e3d46d..69f1f86 100644
--- a/CIM15/IEC61970/Outage/ClearanceTagType.py
+++ b/CIM15/IEC61970/Outage/ClearanceTagType.py
@@ -49,9 +49,9 @@ class ClearanceTagType(IdentifiedObject):
     def setClearanceTags(self, value):
         for x in self._ClearanceTags:
             x.ClearanceTagType = None
+        self._ClearanceTags = []
         for y in value:
-            y._ClearanceTagType = self
-        self._ClearanceTags = value
+            y.ClearanceTagType = self
 
     ClearanceTags = property(getClearanceTags, setClearanceTags)
 
diff --git a/CIM15/IEC61970/Outage/OutageSchedule.py b/CIM15/IEC61970/Outage/OutageSchedule.py
index 92e8d8d..57dc76a 100644
--- a/CIM15/IEC61970/Outage/OutageSchedule.py
+++ b/CIM15/IEC61970/Outage/OutageSchedule.py
@@ -73,9 +73,9 @@ class OutageSchedule(IrregularIntervalSchedule):
     def setSwitchingOperations(self, value):
         for x in self._SwitchingOperations:
             x.OutageSchedule = None
+        self._SwitchingOperations = []
         for y in value:
-            y._OutageSchedule = self
-        self._SwitchingOperations = value
+            y.OutageSchedule = self
 
     SwitchingOperations = property(getSwitchingOperations, setSwitchingOperations)
 
diff --git a/CIM15/IEC61970/SCADA/RemoteUnit.py b/CIM15/IEC61970/SCADA/RemoteUnit.py
index ee21a1a..b90a26d 100644
--- a/CIM15/IEC61970/SCADA/RemoteUnit.py
+++ b/CIM15/IEC61970/SCADA/RemoteUnit.py
@@ -57,9 +57,9 @@ class RemoteUnit(PowerSystemResource):
     def setRemotePoints(self, value):
         for x in self._RemotePoints:
             x.RemoteUnit = None
+        self._RemotePoints = []
         for y in value:
-            y._RemoteUnit = self
-        self._RemotePoints = value
+            y.RemoteUnit = self
 
     RemotePoints = property(getRemotePoints, setRemotePoints)
 
diff --git a/CIM15/IEC61970/StateVariables/TopologicalIsland.py b/CIM15/IEC61970/StateVariables/TopologicalIsland.py
index 8d5272e..405a8e1 100644
--- a/CIM15/IEC61970/StateVariables/TopologicalIsland.py
+++ b/CIM15/IEC61970/StateVariables/TopologicalIsland.py
@@ -69,9 +69,9 @@ class TopologicalIsland(IdentifiedObject):
     def setTopologicalNodes(self, value):
         for x in self._TopologicalNodes:
             x.TopologicalIsland = None
+        self._TopologicalNodes = []
         for y in value:
-            y._TopologicalIsland = self
-        self._TopologicalNodes = value
+            y.TopologicalIsland = self
 
     TopologicalNodes = property(getTopologicalNodes, setTopologicalNodes)
 
diff --git a/CIM15/IEC61970/Topology/BusNameMarker.py b/CIM15/IEC61970/Topology/BusNameMarker.py
index 552faf9..fba0db8 100644
--- a/CIM15/IEC61970/Topology/BusNameMarker.py
+++ b/CIM15/IEC61970/Topology/BusNameMarker.py
@@ -53,9 +53,9 @@ class BusNameMarker(IdentifiedObject):
     def setTerminal(self, value):
         for x in self._Terminal:
             x.BusNameMarker = None
+        self._Terminal = []
         for y in value:
-            y._BusNameMarker = self
-        self._Terminal = value
+            y.BusNameMarker = self
 
     Terminal = property(getTerminal, setTerminal)
 
diff --git a/CIM15/IEC61970/Topology/TopologicalNode.py b/CIM15/IEC61970/Topology/TopologicalNode.py
index ffb3aaa..0e089db 100644
--- a/CIM15/IEC61970/Topology/TopologicalNode.py
+++ b/CIM15/IEC61970/Topology/TopologicalNode.py
@@ -134,9 +134,9 @@ class TopologicalNode(IdentifiedObject):
     def setConnectivityNodes(self, value):
         for x in self._ConnectivityNodes:
             x.TopologicalNode = None
+        self._ConnectivityNodes = []
         for y in value:
-            y._TopologicalNode = self
-        self._ConnectivityNodes = value
+            y.TopologicalNode = self
 
     ConnectivityNodes = property(getConnectivityNodes, setConnectivityNodes)
 
@@ -223,9 +223,9 @@ class TopologicalNode(IdentifiedObject):
     def setTerminal(self, value):
         for x in self._Terminal:
             x.TopologicalNode = None
+        self._Terminal = []
         for y in value:
-            y._TopologicalNode = self
-        self._Terminal = value
+            y.TopologicalNode = self
 
     Terminal = property(getTerminal, setTerminal)
 
diff --git a/CIM15/IEC61970/Wires/ACLineSegment.py b/CIM15/IEC61970/Wires/ACLineSegment.py
index 3413757..6922423 100644
--- a/CIM15/IEC61970/Wires/ACLineSegment.py
+++ b/CIM15/IEC61970/Wires/ACLineSegment.py
@@ -147,9 +147,9 @@ class ACLineSegment(Conductor):
     def setConductorAssets(self, value):
         for x in self._ConductorAssets:
             x.ConductorSegment = None
+        self._ConductorAssets = []
         for y in value:
-            y._ConductorSegment = self
-        self._ConductorAssets = value
+            y.ConductorSegment = self
 
     ConductorAssets = property(getConductorAssets, setConductorAssets)
 
@@ -185,9 +185,9 @@ class ACLineSegment(Conductor):
     def setCut(self, value):
         for x in self._Cut:
             x.ACLineSegment = None
+        self._Cut = []
         for y in value:
-            y._ACLineSegment = self
-        self._Cut = value
+            y.ACLineSegment = self
 
     Cut = property(getCut, setCut)
 
@@ -219,9 +219,9 @@ class ACLineSegment(Conductor):
     def setClamp(self, value):
         for x in self._Clamp:
             x.ACLineSegment = None
+        self._Clamp = []
         for y in value:
-            y._ACLineSegment = self
-        self._Clamp = value
+            y.ACLineSegment = self
 
     Clamp = property(getClamp, setClamp)
 
@@ -239,9 +239,9 @@ class ACLineSegment(Conductor):
     def setACLineSegmentPhases(self, value):
         for x in self._ACLineSegmentPhases:
             x.ACLineSegment = None
+        self._ACLineSegmentPhases = []
         for y in value:
-            y._ACLineSegment = self
-        self._ACLineSegmentPhases = value
+            y.ACLineSegment = self
 
     ACLineSegmentPhases = property(getACLineSegmentPhases, setACLineSegmentPhases)
 
diff --git a/CIM15/IEC61970/Wires/CompositeSwitch.py b/CIM15/IEC61970/Wires/CompositeSwitch.py
index 5dd6072..47edfb0 100644
--- a/CIM15/IEC61970/Wires/CompositeSwitch.py
+++ b/CIM15/IEC61970/Wires/CompositeSwitch.py
@@ -53,9 +53,9 @@ class CompositeSwitch(Equipment):
     def setSwitches(self, value):
         for x in self._Switches:
             x.CompositeSwitch = None
+        self._Switches = []
         for y in value:
-            y._CompositeSwitch = self
-        self._Switches = value
+            y.CompositeSwitch = self
 
     Switches = property(getSwitches, setSwitches)
 
diff --git a/CIM15/IEC61970/Wires/EnergyConsumer.py b/CIM15/IEC61970/Wires/EnergyConsumer.py
index a401f99..61b5745 100644
--- a/CIM15/IEC61970/Wires/EnergyConsumer.py
+++ b/CIM15/IEC61970/Wires/EnergyConsumer.py
@@ -80,9 +80,9 @@ class EnergyConsumer(ConductingEquipment):
     def setServiceDeliveryPoints(self, value):
         for x in self._ServiceDeliveryPoints:
             x.EnergyConsumer = None
+        self._ServiceDeliveryPoints = []
         for y in value:
-            y._EnergyConsumer = self
-        self._ServiceDeliveryPoints = value
+            y.EnergyConsumer = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
@@ -135,9 +135,9 @@ class EnergyConsumer(ConductingEquipment):
     def setEnergyConsumerPhases(self, value):
         for x in self._EnergyConsumerPhases:
             x.EnergyConsumer = None
+        self._EnergyConsumerPhases = []
         for y in value:
-            y._EnergyConsumer = self
-        self._EnergyConsumerPhases = value
+            y.EnergyConsumer = self
 
     EnergyConsumerPhases = property(getEnergyConsumerPhases, setEnergyConsumerPhases)
 
diff --git a/CIM15/IEC61970/Wires/Ground.py b/CIM15/IEC61970/Wires/Ground.py
index f64902c..07204d9 100644
--- a/CIM15/IEC61970/Wires/Ground.py
+++ b/CIM15/IEC61970/Wires/Ground.py
@@ -48,9 +48,9 @@ class Ground(ConductingEquipment):
     def setWindingInsulations(self, value):
         for x in self._WindingInsulations:
             x.Ground = None
+        self._WindingInsulations = []
         for y in value:
-            y._Ground = self
-        self._WindingInsulations = value
+            y.Ground = self
 
     WindingInsulations = property(getWindingInsulations, setWindingInsulations)
 
diff --git a/CIM15/IEC61970/Wires/PerLengthPhaseImpedance.py b/CIM15/IEC61970/Wires/PerLengthPhaseImpedance.py
index d534b27..b03c8e7 100644
--- a/CIM15/IEC61970/Wires/PerLengthPhaseImpedance.py
+++ b/CIM15/IEC61970/Wires/PerLengthPhaseImpedance.py
@@ -57,9 +57,9 @@ class PerLengthPhaseImpedance(IdentifiedObject):
     def setLineSegments(self, value):
         for x in self._LineSegments:
             x.PhaseImpedance = None
+        self._LineSegments = []
         for y in value:
-            y._PhaseImpedance = self
-        self._LineSegments = value
+            y.PhaseImpedance = self
 
     LineSegments = property(getLineSegments, setLineSegments)
 
@@ -79,9 +79,9 @@ class PerLengthPhaseImpedance(IdentifiedObject):
     def setPhaseImpedanceData(self, value):
         for x in self._PhaseImpedanceData:
             x.PhaseImpedance = None
+        self._PhaseImpedanceData = []
         for y in value:
-            y._PhaseImpedance = self
-        self._PhaseImpedanceData = value
+            y.PhaseImpedance = self
 
     PhaseImpedanceData = property(getPhaseImpedanceData, setPhaseImpedanceData)
 
diff --git a/CIM15/IEC61970/Wires/PerLengthSequenceImpedance.py b/CIM15/IEC61970/Wires/PerLengthSequenceImpedance.py
index fd61c7c..da69f20 100644
--- a/CIM15/IEC61970/Wires/PerLengthSequenceImpedance.py
+++ b/CIM15/IEC61970/Wires/PerLengthSequenceImpedance.py
@@ -81,9 +81,9 @@ class PerLengthSequenceImpedance(IdentifiedObject):
     def setLineSegments(self, value):
         for x in self._LineSegments:
             x.SequenceImpedance = None
+        self._LineSegments = []
         for y in value:
-            y._SequenceImpedance = self
-        self._LineSegments = value
+            y.SequenceImpedance = self
 
     LineSegments = property(getLineSegments, setLineSegments)
 
diff --git a/CIM15/IEC61970/Wires/PhaseTapChangerTabular.py b/CIM15/IEC61970/Wires/PhaseTapChangerTabular.py
index ddfaa55..b3be3a8 100644
--- a/CIM15/IEC61970/Wires/PhaseTapChangerTabular.py
+++ b/CIM15/IEC61970/Wires/PhaseTapChangerTabular.py
@@ -52,9 +52,9 @@ class PhaseTapChangerTabular(Element):
     def setPhaseTapChangerTabularPoint(self, value):
         for x in self._PhaseTapChangerTabularPoint:
             x.PhaseTapChangerTabular = None
+        self._PhaseTapChangerTabularPoint = []
         for y in value:
-            y._PhaseTapChangerTabular = self
-        self._PhaseTapChangerTabularPoint = value
+            y.PhaseTapChangerTabular = self
 
     PhaseTapChangerTabularPoint = property(getPhaseTapChangerTabularPoint, setPhaseTapChangerTabularPoint)
 
@@ -73,9 +73,9 @@ class PhaseTapChangerTabular(Element):
     def setPhaseTapChanger(self, value):
         for x in self._PhaseTapChanger:
             x.PhaseTapChangerTabular = None
+        self._PhaseTapChanger = []
         for y in value:
-            y._PhaseTapChangerTabular = self
-        self._PhaseTapChanger = value
+            y.PhaseTapChangerTabular = self
 
     PhaseTapChanger = property(getPhaseTapChanger, setPhaseTapChanger)
 
diff --git a/CIM15/IEC61970/Wires/PowerTransformer.py b/CIM15/IEC61970/Wires/PowerTransformer.py
index ba8a579..463a014 100644
--- a/CIM15/IEC61970/Wires/PowerTransformer.py
+++ b/CIM15/IEC61970/Wires/PowerTransformer.py
@@ -61,9 +61,9 @@ class PowerTransformer(ConductingEquipment):
     def setTransformerTanks(self, value):
         for x in self._TransformerTanks:
             x.PowerTransformer = None
+        self._TransformerTanks = []
         for y in value:
-            y._PowerTransformer = self
-        self._TransformerTanks = value
+            y.PowerTransformer = self
 
     TransformerTanks = property(getTransformerTanks, setTransformerTanks)
 
@@ -99,9 +99,9 @@ class PowerTransformer(ConductingEquipment):
     def setPowerTransformerEnd(self, value):
         for x in self._PowerTransformerEnd:
             x.PowerTransformer = None
+        self._PowerTransformerEnd = []
         for y in value:
-            y._PowerTransformer = self
-        self._PowerTransformerEnd = value
+            y.PowerTransformer = self
 
     PowerTransformerEnd = property(getPowerTransformerEnd, setPowerTransformerEnd)
 
diff --git a/CIM15/IEC61970/Wires/ProtectedSwitch.py b/CIM15/IEC61970/Wires/ProtectedSwitch.py
index 0ddaef5..40bf038 100644
--- a/CIM15/IEC61970/Wires/ProtectedSwitch.py
+++ b/CIM15/IEC61970/Wires/ProtectedSwitch.py
@@ -88,9 +88,9 @@ class ProtectedSwitch(Switch):
     def setRecloseSequences(self, value):
         for x in self._RecloseSequences:
             x.ProtectedSwitch = None
+        self._RecloseSequences = []
         for y in value:
-            y._ProtectedSwitch = self
-        self._RecloseSequences = value
+            y.ProtectedSwitch = self
 
     RecloseSequences = property(getRecloseSequences, setRecloseSequences)
 
diff --git a/CIM15/IEC61970/Wires/RatioTapChangerTabular.py b/CIM15/IEC61970/Wires/RatioTapChangerTabular.py
index 5820b18..82dc7a4 100644
--- a/CIM15/IEC61970/Wires/RatioTapChangerTabular.py
+++ b/CIM15/IEC61970/Wires/RatioTapChangerTabular.py
@@ -52,9 +52,9 @@ class RatioTapChangerTabular(Element):
     def setRatioTapChangerTabularPoint(self, value):
         for x in self._RatioTapChangerTabularPoint:
             x.RatioTapChangerTabular = None
+        self._RatioTapChangerTabularPoint = []
         for y in value:
-            y._RatioTapChangerTabular = self
-        self._RatioTapChangerTabularPoint = value
+            y.RatioTapChangerTabular = self
 
     RatioTapChangerTabularPoint = property(getRatioTapChangerTabularPoint, setRatioTapChangerTabularPoint)
 
@@ -73,9 +73,9 @@ class RatioTapChangerTabular(Element):
     def setRatioTapChanger(self, value):
         for x in self._RatioTapChanger:
             x.RatioTapChangerTabular = None
+        self._RatioTapChanger = []
         for y in value:
-            y._RatioTapChangerTabular = self
-        self._RatioTapChanger = value
+            y.RatioTapChangerTabular = self
 
     RatioTapChanger = property(getRatioTapChanger, setRatioTapChanger)
 
diff --git a/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py b/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py
index 2041437..621b466 100644
--- a/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py
+++ b/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py
@@ -61,9 +61,9 @@ class ReactiveCapabilityCurve(Curve):
     def setInitiallyUsedBySynchronousMachines(self, value):
         for x in self._InitiallyUsedBySynchronousMachines:
             x.InitialReactiveCapabilityCurve = None
+        self._InitiallyUsedBySynchronousMachines = []
         for y in value:
-            y._InitialReactiveCapabilityCurve = self
-        self._InitiallyUsedBySynchronousMachines = value
+            y.InitialReactiveCapabilityCurve = self
 
     InitiallyUsedBySynchronousMachines = property(getInitiallyUsedBySynchronousMachines, setInitiallyUsedBySynchronousMachines)
 
diff --git a/CIM15/IEC61970/Wires/RegulatingCondEq.py b/CIM15/IEC61970/Wires/RegulatingCondEq.py
index 2336dd0..d5de34f 100644
--- a/CIM15/IEC61970/Wires/RegulatingCondEq.py
+++ b/CIM15/IEC61970/Wires/RegulatingCondEq.py
@@ -53,9 +53,9 @@ class RegulatingCondEq(ConductingEquipment):
     def setControls(self, value):
         for x in self._Controls:
             x.RegulatingCondEq = None
+        self._Controls = []
         for y in value:
-            y._RegulatingCondEq = self
-        self._Controls = value
+            y.RegulatingCondEq = self
 
     Controls = property(getControls, setControls)
 
diff --git a/CIM15/IEC61970/Wires/RegulatingControl.py b/CIM15/IEC61970/Wires/RegulatingControl.py
index 363dd8a..e1b0f5b 100644
--- a/CIM15/IEC61970/Wires/RegulatingControl.py
+++ b/CIM15/IEC61970/Wires/RegulatingControl.py
@@ -77,9 +77,9 @@ class RegulatingControl(PowerSystemResource):
     def setRegulatingCondEq(self, value):
         for x in self._RegulatingCondEq:
             x.RegulatingControl = None
+        self._RegulatingCondEq = []
         for y in value:
-            y._RegulatingControl = self
-        self._RegulatingCondEq = value
+            y.RegulatingControl = self
 
     RegulatingCondEq = property(getRegulatingCondEq, setRegulatingCondEq)
 
@@ -116,9 +116,9 @@ class RegulatingControl(PowerSystemResource):
     def setRegulationSchedule(self, value):
         for x in self._RegulationSchedule:
             x.RegulatingControl = None
+        self._RegulationSchedule = []
         for y in value:
-            y._RegulatingControl = self
-        self._RegulationSchedule = value
+            y.RegulatingControl = self
 
     RegulationSchedule = property(getRegulationSchedule, setRegulationSchedule)
 
diff --git a/CIM15/IEC61970/Wires/RegulationSchedule.py b/CIM15/IEC61970/Wires/RegulationSchedule.py
index bb89057..fab82ca 100644
--- a/CIM15/IEC61970/Wires/RegulationSchedule.py
+++ b/CIM15/IEC61970/Wires/RegulationSchedule.py
@@ -70,9 +70,9 @@ class RegulationSchedule(SeasonDayTypeSchedule):
     def setVoltageControlZones(self, value):
         for x in self._VoltageControlZones:
             x.RegulationSchedule = None
+        self._VoltageControlZones = []
         for y in value:
-            y._RegulationSchedule = self
-        self._VoltageControlZones = value
+            y.RegulationSchedule = self
 
     VoltageControlZones = property(getVoltageControlZones, setVoltageControlZones)
 
diff --git a/CIM15/IEC61970/Wires/ShuntCompensator.py b/CIM15/IEC61970/Wires/ShuntCompensator.py
index 335091e..5f33bd9 100644
--- a/CIM15/IEC61970/Wires/ShuntCompensator.py
+++ b/CIM15/IEC61970/Wires/ShuntCompensator.py
@@ -128,9 +128,9 @@ class ShuntCompensator(RegulatingCondEq):
     def setShuntCompensatorPhases(self, value):
         for x in self._ShuntCompensatorPhases:
             x.ShuntCompensator = None
+        self._ShuntCompensatorPhases = []
         for y in value:
-            y._ShuntCompensator = self
-        self._ShuntCompensatorPhases = value
+            y.ShuntCompensator = self
 
     ShuntCompensatorPhases = property(getShuntCompensatorPhases, setShuntCompensatorPhases)
 
diff --git a/CIM15/IEC61970/Wires/Switch.py b/CIM15/IEC61970/Wires/Switch.py
index cfd14ef..764e154 100644
--- a/CIM15/IEC61970/Wires/Switch.py
+++ b/CIM15/IEC61970/Wires/Switch.py
@@ -180,9 +180,9 @@ class Switch(ConductingEquipment):
     def setSwitchSchedules(self, value):
         for x in self._SwitchSchedules:
             x.Switch = None
+        self._SwitchSchedules = []
         for y in value:
-            y._Switch = self
-        self._SwitchSchedules = value
+            y.Switch = self
 
     SwitchSchedules = property(getSwitchSchedules, setSwitchSchedules)
 
@@ -201,9 +201,9 @@ class Switch(ConductingEquipment):
     def setSwitchPhases(self, value):
         for x in self._SwitchPhases:
             x.Switch = None
+        self._SwitchPhases = []
         for y in value:
-            y._Switch = self
-        self._SwitchPhases = value
+            y.Switch = self
 
     SwitchPhases = property(getSwitchPhases, setSwitchPhases)
 
diff --git a/CIM15/IEC61970/Wires/TapChanger.py b/CIM15/IEC61970/Wires/TapChanger.py
index fc604cc..03c90f7 100644
--- a/CIM15/IEC61970/Wires/TapChanger.py
+++ b/CIM15/IEC61970/Wires/TapChanger.py
@@ -114,9 +114,9 @@ class TapChanger(PowerSystemResource):
     def setTapSchedules(self, value):
         for x in self._TapSchedules:
             x.TapChanger = None
+        self._TapSchedules = []
         for y in value:
-            y._TapChanger = self
-        self._TapSchedules = value
+            y.TapChanger = self
 
     TapSchedules = property(getTapSchedules, setTapSchedules)
 
diff --git a/CIM15/IEC61970/Wires/TapChangerControl.py b/CIM15/IEC61970/Wires/TapChangerControl.py
index 7cca9a0..f04725f 100644
--- a/CIM15/IEC61970/Wires/TapChangerControl.py
+++ b/CIM15/IEC61970/Wires/TapChangerControl.py
@@ -73,9 +73,9 @@ class TapChangerControl(RegulatingControl):
     def setTapChanger(self, value):
         for x in self._TapChanger:
             x.TapChangerControl = None
+        self._TapChanger = []
         for y in value:
-            y._TapChangerControl = self
-        self._TapChanger = value
+            y.TapChangerControl = self
 
     TapChanger = property(getTapChanger, setTapChanger)
 
diff --git a/CIM15/IEC61970/Wires/TransformerCoreAdmittance.py b/CIM15/IEC61970/Wires/TransformerCoreAdmittance.py
index f0a40dd..2562e7f 100644
--- a/CIM15/IEC61970/Wires/TransformerCoreAdmittance.py
+++ b/CIM15/IEC61970/Wires/TransformerCoreAdmittance.py
@@ -83,9 +83,9 @@ class TransformerCoreAdmittance(IdentifiedObject):
     def setTransformerEnd(self, value):
         for x in self._TransformerEnd:
             x.CoreAdmittance = None
+        self._TransformerEnd = []
         for y in value:
-            y._CoreAdmittance = self
-        self._TransformerEnd = value
+            y.CoreAdmittance = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
diff --git a/CIM15/IEC61970/Wires/TransformerEnd.py b/CIM15/IEC61970/Wires/TransformerEnd.py
index e4a319b..100bfeb 100644
--- a/CIM15/IEC61970/Wires/TransformerEnd.py
+++ b/CIM15/IEC61970/Wires/TransformerEnd.py
@@ -147,9 +147,9 @@ class TransformerEnd(IdentifiedObject):
     def setFromWindingInsulations(self, value):
         for x in self._FromWindingInsulations:
             x.FromWinding = None
+        self._FromWindingInsulations = []
         for y in value:
-            y._FromWinding = self
-        self._FromWindingInsulations = value
+            y.FromWinding = self
 
     FromWindingInsulations = property(getFromWindingInsulations, setFromWindingInsulations)
 
@@ -235,9 +235,9 @@ class TransformerEnd(IdentifiedObject):
     def setFromMeshImpedance(self, value):
         for x in self._FromMeshImpedance:
             x.FromTransformerEnd = None
+        self._FromMeshImpedance = []
         for y in value:
-            y._FromTransformerEnd = self
-        self._FromMeshImpedance = value
+            y.FromTransformerEnd = self
 
     FromMeshImpedance = property(getFromMeshImpedance, setFromMeshImpedance)
 
@@ -256,9 +256,9 @@ class TransformerEnd(IdentifiedObject):
     def setToWindingInsulations(self, value):
         for x in self._ToWindingInsulations:
             x.ToWinding = None
+        self._ToWindingInsulations = []
         for y in value:
-            y._ToWinding = self
-        self._ToWindingInsulations = value
+            y.ToWinding = self
 
     ToWindingInsulations = property(getToWindingInsulations, setToWindingInsulations)
 
diff --git a/CIM15/IEC61970/Wires/TransformerStarImpedance.py b/CIM15/IEC61970/Wires/TransformerStarImpedance.py
index f18ba71..d6274d4 100644
--- a/CIM15/IEC61970/Wires/TransformerStarImpedance.py
+++ b/CIM15/IEC61970/Wires/TransformerStarImpedance.py
@@ -65,9 +65,9 @@ class TransformerStarImpedance(IdentifiedObject):
     def setTransformerEnd(self, value):
         for x in self._TransformerEnd:
             x.StarImpedance = None
+        self._TransformerEnd = []
         for y in value:
-            y._StarImpedance = self
-        self._TransformerEnd = value
+            y.StarImpedance = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
diff --git a/CIM15/IEC61970/Wires/TransformerTank.py b/CIM15/IEC61970/Wires/TransformerTank.py
index 372ce37..f20e651 100644
--- a/CIM15/IEC61970/Wires/TransformerTank.py
+++ b/CIM15/IEC61970/Wires/TransformerTank.py
@@ -65,9 +65,9 @@ class TransformerTank(Equipment):
     def setServiceDeliveryPoints(self, value):
         for x in self._ServiceDeliveryPoints:
             x.TransformerTanks = None
+        self._ServiceDeliveryPoints = []
         for y in value:
-            y._TransformerTanks = self
-        self._ServiceDeliveryPoints = value
+            y.TransformerTanks = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
@@ -87,9 +87,9 @@ class TransformerTank(Equipment):
     def setTransformerTankEnds(self, value):
         for x in self._TransformerTankEnds:
             x.TransformerTank = None
+        self._TransformerTankEnds = []
         for y in value:
-            y._TransformerTank = self
-        self._TransformerTankEnds = value
+            y.TransformerTank = self
 
     TransformerTankEnds = property(getTransformerTankEnds, setTransformerTankEnds)
 
@@ -142,9 +142,9 @@ class TransformerTank(Equipment):
     def setTransformerObservations(self, value):
         for x in self._TransformerObservations:
             x.Transformer = None
+        self._TransformerObservations = []
         for y in value:
-            y._Transformer = self
-        self._TransformerObservations = value
+            y.Transformer = self
 
     TransformerObservations = property(getTransformerObservations, setTransformerObservations)
 
-- 
2.43.0


From 3d850919c8a303b153ee03889d1c069d34bff1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:56 +0000
Subject: [PATCH 04/31] fix: importing the CIM14 Dynamics packages first failed
 with an ImportError

Wires.SynchronousMachine derives from Dynamics.RotatingMachine, which derives
from Wires.RegulatingCondEq.  Entering the cycle through Dynamics left
RotatingMachine half initialised, so cimread of a document whose first element
is a Dynamics class raised.  Enter it through Wires in both packages.
---
 CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/__init__.py | 4 ++++
 CIM14/IEC61970/Dynamics/__init__.py                 | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/__init__.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/__init__.py
index c926d7c..27607da 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/__init__.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/__init__.py
@@ -19,6 +19,10 @@
 # IN THE SOFTWARE.
 
 
+# WiresSynchronousMachine derives from DynamicsRotatingMachine, which derives from
+# WiresRegulatingCondEq: the Wires package has to be entered first.
+import CIM14.ENTSOE.Dynamics.IEC61970.Wires
+
 from CIM14.ENTSOE.Dynamics.IEC61970.Dynamics.DynamicsMetaBlockState import DynamicsMetaBlockState
 from CIM14.ENTSOE.Dynamics.IEC61970.Dynamics.DynamicsMetaBlockConSignal import DynamicsMetaBlockConSignal
 from CIM14.ENTSOE.Dynamics.IEC61970.Dynamics.DynamicsMetaBlockReference import DynamicsMetaBlockReference
diff --git a/CIM14/IEC61970/Dynamics/__init__.py b/CIM14/IEC61970/Dynamics/__init__.py
index 78b7045..d7525e7 100644
--- a/CIM14/IEC61970/Dynamics/__init__.py
+++ b/CIM14/IEC61970/Dynamics/__init__.py
@@ -21,6 +21,10 @@
 """This package models generalized dynamic models. Standard models and user defined dynamics models are included.  In some ways this duplicates the partial modeling that was done in the GenerationDynamics package, but it far exceeds that package in terms of flexibility and extensibility.   This package does not attempt to fully specficfy all possible dynamics models in specific UML, but rather builds a framework in which to exchange standard or custom dyanmics models based on 'well known' block functions.The Dynamics package isn't officially part of IEC 61970.
 """
 
+# SynchronousMachine (Wires) derives from RotatingMachine (Dynamics), which derives
+# from RegulatingCondEq (Wires): the Wires package has to be entered first.
+import CIM14.IEC61970.Wires
+
 from CIM14.IEC61970.Dynamics.BlockConnection import BlockConnection
 from CIM14.IEC61970.Dynamics.RotatingMachine import RotatingMachine
 from CIM14.IEC61970.Dynamics.AsynchronousMachine import AsynchronousMachine
-- 
2.43.0


From 6106469570f560a3a2025f1910a19fcc702207a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:55 +0000
Subject: [PATCH 05/31] fix: EnergyConsumerPhase.phase was not serialised

The attribute was missing from the class's attribute and enumeration tables, so
cimwrite dropped it; describe it as ACLineSegmentPhase does.
---
 CIM15/IEC61970/WiresPhaseModel/EnergyConsumerPhase.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CIM15/IEC61970/WiresPhaseModel/EnergyConsumerPhase.py b/CIM15/IEC61970/WiresPhaseModel/EnergyConsumerPhase.py
index 98cc2a4..bea7676 100644
--- a/CIM15/IEC61970/WiresPhaseModel/EnergyConsumerPhase.py
+++ b/CIM15/IEC61970/WiresPhaseModel/EnergyConsumerPhase.py
@@ -37,10 +37,10 @@ class EnergyConsumerPhase(PowerSystemResource):
 
         super(EnergyConsumerPhase, self).__init__(*args, **kw_args)
 
-    _attrs = ["pfixed", "qfixed"]
-    _attr_types = {"pfixed": float, "qfixed": float}
-    _defaults = {"pfixed": 0.0, "qfixed": 0.0}
-    _enums = {}
+    _attrs = ["phase", "pfixed", "qfixed"]
+    _attr_types = {"phase": str, "pfixed": float, "qfixed": float}
+    _defaults = {"phase": "C", "pfixed": 0.0, "qfixed": 0.0}
+    _enums = {"phase": "SinglePhaseKind"}
     _refs = ["EnergyConsumer"]
     _many_refs = []
 
-- 
2.43.0


From 41bb643f4a38c4e7561c2396ab8b49f1abfe02e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:02 +0000
Subject: [PATCH 06/31] fix: cimwrite wrote unset attributes as the text 'None'

An unset enumeration or attribute (None, e.g. the default phase of
ACLineSegmentPhase) was written as 'SinglePhaseKind.None' or 'None' and read
back as the string 'None'.  Leave it out.
---
 PyCIM/RDFXMLWriter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyCIM/RDFXMLWriter.py b/PyCIM/RDFXMLWriter.py
index e5a3c4e..7d350d4 100644
--- a/PyCIM/RDFXMLWriter.py
+++ b/PyCIM/RDFXMLWriter.py
@@ -73,7 +73,7 @@ def cimwrite(d, source, encoding="utf-8"):
             attrs = [a for a in klass._attrs if a not in klass._enums]
             for attr in attrs:
                 val = getattr(obj, attr)
-                if val != klass._defaults[attr]:
+                if val is not None and val != klass._defaults[attr]:
                     w.element(u"%s:%s.%s" % (nsPrefix, klass.__name__, attr),
                               str(val))
 
@@ -82,6 +82,8 @@ def cimwrite(d, source, encoding="utf-8"):
             enums = [a for a in klass._attrs if a in klass._enums]
             for enum in enums:
                 val = getattr(obj, enum)
+                if val is None: # unset
+                    continue
                 dt = klass._enums[enum]
                 w.element(u"%s:%s.%s" % (nsPrefix, klass.__name__, enum),
                           attrib={u"%s:resource" % nsPrefixRDF:
-- 
2.43.0


From 9276cbd3ed2600a4c5189a48da7fe3ba04a58423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:07 +0000
Subject: [PATCH 07/31] fix: XMLWriter dropped attributes given as keyword
 arguments

---
 PyCIM/SimpleXMLWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCIM/SimpleXMLWriter.py b/PyCIM/SimpleXMLWriter.py
index 2da9f27..305d135 100644
--- a/PyCIM/SimpleXMLWriter.py
+++ b/PyCIM/SimpleXMLWriter.py
@@ -202,7 +202,7 @@ class XMLWriter:
         if attrib or extra:
             combined_attrib = attrib.copy()
             combined_attrib.update(extra)
-            for k, v in sorted(attrib.items()):
+            for k, v in sorted(combined_attrib.items()):
                 k = escape_cdata(k, self.__encoding)
                 v = escape_attrib(v, self.__encoding)
                 self.__write(" %s=\"%s\"" % (k, v))
-- 
2.43.0


From a7429555d4c26c907796a83d3959b90960636d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:13 +0000
Subject: [PATCH 08/31] fix: carriage returns, and tabs and newlines in
 attribute values, were not escaped

XML parsers normalise them when they are written literally, so such text did
not survive cimwrite and cimread.
---
 PyCIM/SimpleXMLWriter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PyCIM/SimpleXMLWriter.py b/PyCIM/SimpleXMLWriter.py
index 305d135..92e0040 100644
--- a/PyCIM/SimpleXMLWriter.py
+++ b/PyCIM/SimpleXMLWriter.py
@@ -120,6 +120,7 @@ def escape_cdata(s, encoding=None):
     s = s.replace("&", "&amp;")
     s = s.replace("<", "&lt;")
     s = s.replace(">", "&gt;")
+    s = s.replace("\r", "&#13;") # parsers read a bare CR as LF
     if encoding:
         try:
             return encode(s, encoding)
@@ -133,6 +134,10 @@ def escape_attrib(s, encoding=None):
     s = s.replace("\"", "&quot;")
     s = s.replace("<", "&lt;")
     s = s.replace(">", "&gt;")
+    # parsers read bare white space in attribute values as spaces
+    s = s.replace("\t", "&#9;")
+    s = s.replace("\n", "&#10;")
+    s = s.replace("\r", "&#13;")
     if encoding:
         try:
             return encode(s, encoding)
-- 
2.43.0


From b4080189836d201c46e72823d595e7c62cbb7f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:41 +0000
Subject: [PATCH 09/31] fix: writing to a path used the locale's encoding
 instead of the requested one

cimwrite(d, path, encoding) opened the file in the encoding of the locale, so
the declaration and the bytes could disagree and, in a C or POSIX locale,
non-ASCII names raised or made an unreadable file.  Open it in the requested
encoding, with character references for what that encoding cannot hold.
---
 PyCIM/SimpleXMLWriter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/PyCIM/SimpleXMLWriter.py b/PyCIM/SimpleXMLWriter.py
index 92e0040..4fa6fc4 100644
--- a/PyCIM/SimpleXMLWriter.py
+++ b/PyCIM/SimpleXMLWriter.py
@@ -95,10 +95,15 @@ except NameError:
     def encode(s, encoding):
         # 1.5.2: application must use the right encoding
         return s
+    def open_file(name, encoding):
+        # encode as declared, whatever the locale says
+        return open(name, "w", encoding=encoding, errors="xmlcharrefreplace")
     _escape = re.compile(r"[&<>\"\x80-\xff]+") # 1.5.2
 else:
     def encode(s, encoding):
         return s.encode(encoding)
+    def open_file(name, encoding):
+        return open(name, "w")
     _escape = re.compile(eval(r'u"[&<>\"\u0080-\uffff]+"'))
 
 def encode_entity(text, pattern=_escape):
@@ -156,7 +161,7 @@ class XMLWriter:
 
     def __init__(self, file, encoding="us-ascii"):
         if not hasattr(file, "write"):
-            file = open(file, "w")
+            file = open_file(file, encoding)
         self.__write = file.write
         if hasattr(file, "flush"):
             self.flush = file.flush
-- 
2.43.0


From f9be05ec95d5a1d0fd7386040f2e42b673eaf280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:47 +0000
Subject: [PATCH 10/31] fix: cimread read an empty string attribute as the text
 'None'

---
 PyCIM/RDFXMLReader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index 84ade65..53b76ed 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -174,6 +174,9 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
                                             setattr(obj, attr, True)
                                         else:
                                             setattr(obj, attr, False)
+                                    elif typ == str and elem.text is None:
+                                        # An empty element holds an empty string.
+                                        setattr(obj, attr, "")
                                     else:
                                         setattr(obj, attr, typ(elem.text))
                                 except TypeError:
-- 
2.43.0


From fe42aa191d807ae98d0e014eb3d583972dd37e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:53 +0000
Subject: [PATCH 11/31] fix: cimread raised on a reference held by a list
 without an inverse

Lists without an inverse (e.g. CIM14 ProtectionEquipment.ProtectedSwitches)
have an add_X method, not addX.
---
 PyCIM/RDFXMLReader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index 53b76ed..a85e7bd 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -200,8 +200,12 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
                                         # bi-directional references.
                                         setattr(obj, attr, val)
                                     elif isinstance(default, list): # many
-                                        # Use 'add*' method to set reference.
-                                        getattr(obj, ("add%s" % attr))(val)
+                                        # Use 'add*' method to set reference
+                                        # ('add_*' if it has no inverse).
+                                        add = getattr(obj, "add%s" % attr, None)
+                                        if add is None:
+                                            add = getattr(obj, "add_%s" % attr)
+                                        add(val)
 #                                    else:
 #                                        logger.error("Reference error [%s].",
 #                                                     default)
-- 
2.43.0


From f7b8b98b13cb99d996fc0ce55205ae65f7df6bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:58 +0000
Subject: [PATCH 12/31] fix: describing a known object with rdf:about replaced
 it

With start_dict, an element with rdf:about made a new object under the same
UUID: attributes read earlier were lost and other objects went on referring to
the object that was replaced.  Add to the existing object instead.
---
 PyCIM/RDFXMLReader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index a85e7bd..22a6ade 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -90,6 +90,10 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
                 uuid = elem.get("{%s}about" % ns_rdf)
                 if uuid is not None:
                     uuid = uuid[1:]
+                    # 'about' adds to an object that is already known.
+                    if uuid in d:
+                        root.clear()
+                        continue
             if uuid is not None: # class
                 # Element tag without namespace (e.g. VoltageLevel).
                 tag = elem.tag[m:]
-- 
2.43.0


From 6466df6315aeb166b4d8ce618f43aca16f8be52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:26 +0000
Subject: [PATCH 13/31] fix: CIM14 models were written in the CIM15 namespace

cimread then detected CIM15 and rebuilt the model from CIM15 classes, dropping
what CIM15 does not have.
---
 PyCIM/RDFXMLWriter.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/PyCIM/RDFXMLWriter.py b/PyCIM/RDFXMLWriter.py
index 7d350d4..cb908db 100644
--- a/PyCIM/RDFXMLWriter.py
+++ b/PyCIM/RDFXMLWriter.py
@@ -22,6 +22,8 @@ import logging
 
 from time import time
 
+import CIM14
+
 from CIM15 import nsURI, nsPrefix
 
 from PyCIM.SimpleXMLWriter import XMLWriter
@@ -53,8 +55,13 @@ def cimwrite(d, source, encoding="utf-8"):
     # Write the XML declaration.
     w.declaration()
 
+    # Use the namespace of the CIM version that the model was built with.
+    versions = set([obj.__class__.__module__.split(".")[0]
+                    for obj in d.values()])
+    nsCIM = CIM14.nsURI if versions == set(["CIM14"]) else nsURI
+
     # Add a '#' suffix to the CIM namespace URI if not present.
-    nsCIM = nsURI if nsURI[-1] == "#" else nsURI + "#"
+    nsCIM = nsCIM if nsCIM[-1] == "#" else nsCIM + "#"
 
     # Start the root RDF element and declare namespaces.
     xmlns = {u"xmlns:%s" % nsPrefixRDF: nsRDF, u"xmlns:%s" % nsPrefix: nsCIM}
-- 
2.43.0


From 46f0ba5bf587fc080aef85490f770a578e47e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:51 +0000
Subject: [PATCH 14/31] fix: the limit sets of an Equipment had no way back to
 it

Equipment.OperationalLimitSet kept its other end in OperationalLimitSet._Equipment
or .Equipment depending on the call, neither of which the class has, so the two
ends disagreed after most operations and the link was never serialised.  Give
OperationalLimitSet the many-to-one Equipment reference.
---
 CIM15/IEC61970/Core/Equipment.py              |  2 --
 .../OperationalLimits/OperationalLimitSet.py  | 25 +++++++++++++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/CIM15/IEC61970/Core/Equipment.py b/CIM15/IEC61970/Core/Equipment.py
index 59191fb..8029f41 100644
--- a/CIM15/IEC61970/Core/Equipment.py
+++ b/CIM15/IEC61970/Core/Equipment.py
@@ -148,9 +148,7 @@ class Equipment(PowerSystemResource):
     def addOperationalLimitSet(self, *OperationalLimitSet):
         for obj in OperationalLimitSet:
             obj.Equipment = self
-            self.OperationalLimitSet.append(obj)
 
     def removeOperationalLimitSet(self, *OperationalLimitSet):
         for obj in OperationalLimitSet:
             obj.Equipment = None
-            self.OperationalLimitSet.remove(obj)
diff --git a/CIM15/IEC61970/OperationalLimits/OperationalLimitSet.py b/CIM15/IEC61970/OperationalLimits/OperationalLimitSet.py
index 62d90c3..93b1526 100644
--- a/CIM15/IEC61970/OperationalLimits/OperationalLimitSet.py
+++ b/CIM15/IEC61970/OperationalLimits/OperationalLimitSet.py
@@ -24,11 +24,12 @@ class OperationalLimitSet(IdentifiedObject):
     """A set of limits associated with equipmnet.  Sets of limits might apply to a specific temperature, or season for example. A set of limits may contain may different severities of limit levels that would apply to the same equipment.   The set may contain limits of different types such as apparent power and current limits or high and low voltage limits  that are logically applied together as a set.A set of limits associated with equipmnet.  Sets of limits might apply to a specific temperature, or season for example. A set of limits may contain may different severities of limit levels that would apply to the same equipment.   The set may contain limits of different types such as apparent power and current limits or high and low voltage limits  that are logically applied together as a set.
     """
 
-    def __init__(self, Terminal=None, OperationalLimitValue=None, *args, **kw_args):
+    def __init__(self, Terminal=None, OperationalLimitValue=None, Equipment=None, *args, **kw_args):
         """Initialises a new 'OperationalLimitSet' instance.
 
         @param Terminal: The terminal specifically associated to this operational limit set.  If no terminal is associated, all terminals of the equipment are implied.
         @param OperationalLimitValue: Values of equipment limits.
+        @param Equipment: The equipment to which the limit set applies.
         """
         self._Terminal = None
         self.Terminal = Terminal
@@ -36,13 +37,16 @@ class OperationalLimitSet(IdentifiedObject):
         self._OperationalLimitValue = []
         self.OperationalLimitValue = [] if OperationalLimitValue is None else OperationalLimitValue
 
+        self._Equipment = None
+        self.Equipment = Equipment
+
         super(OperationalLimitSet, self).__init__(*args, **kw_args)
 
     _attrs = []
     _attr_types = {}
     _defaults = {}
     _enums = {}
-    _refs = ["Terminal", "OperationalLimitValue"]
+    _refs = ["Terminal", "OperationalLimitValue", "Equipment"]
     _many_refs = ["OperationalLimitValue"]
 
     def getTerminal(self):
@@ -84,3 +88,20 @@ class OperationalLimitSet(IdentifiedObject):
         for obj in OperationalLimitValue:
             obj.OperationalLimitSet = None
 
+    def getEquipment(self):
+        """The equipment to which the limit set applies.
+        """
+        return self._Equipment
+
+    def setEquipment(self, value):
+        if self._Equipment is not None:
+            filtered = [x for x in self.Equipment.OperationalLimitSet if x != self]
+            self._Equipment._OperationalLimitSet = filtered
+
+        self._Equipment = value
+        if self._Equipment is not None:
+            if self not in self._Equipment._OperationalLimitSet:
+                self._Equipment._OperationalLimitSet.append(self)
+
+    Equipment = property(getEquipment, setEquipment)
+
-- 
2.43.0


From 03eeca8b03b45e32c30ee11ef46089f899e1360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:07 +0000
Subject: [PATCH 15/31] fix: 18 CIM15 data classes could not be loaded or saved

Status, StreetAddress, ElectronicAddress and others derived from object instead
of Element (as in CIM14), so they took no UUID: cimread raised a TypeError on
their elements and cimwrite could not name them.
---
 CIM15/IEC61968/Assets/AcceptanceTest.py                   | 6 ++++--
 CIM15/IEC61968/Common/ElectronicAddress.py                | 6 ++++--
 CIM15/IEC61968/Common/PostalAddress.py                    | 6 ++++--
 CIM15/IEC61968/Common/Status.py                           | 6 ++++--
 CIM15/IEC61968/Common/StreetAddress.py                    | 6 ++++--
 CIM15/IEC61968/Common/StreetDetail.py                     | 6 ++++--
 CIM15/IEC61968/Common/TelephoneNumber.py                  | 6 ++++--
 CIM15/IEC61968/Common/TownDetail.py                       | 6 ++++--
 CIM15/IEC61968/LoadControl/RemoteConnectDisconnectInfo.py | 6 ++++--
 CIM15/IEC61968/Metering/DynamicDemand.py                  | 6 ++++--
 CIM15/IEC61968/Metering/ReadingMultiplier.py              | 6 ++++--
 CIM15/IEC61968/PaymentMetering/AccountMovement.py         | 6 ++++--
 CIM15/IEC61968/PaymentMetering/AccountingUnit.py          | 6 ++++--
 CIM15/IEC61968/PaymentMetering/BankAccountDetail.py       | 6 ++++--
 CIM15/IEC61968/PaymentMetering/Due.py                     | 6 ++++--
 CIM15/IEC61968/PaymentMetering/LineDetail.py              | 6 ++++--
 CIM15/IEC61970/Domain/DateTimeInterval.py                 | 6 ++++--
 CIM15/IEC61970/Informative/InfCommon/Ratio.py             | 6 ++++--
 18 files changed, 72 insertions(+), 36 deletions(-)

diff --git a/CIM15/IEC61968/Assets/AcceptanceTest.py b/CIM15/IEC61968/Assets/AcceptanceTest.py
index 44bfede..e67b2aa 100644
--- a/CIM15/IEC61968/Assets/AcceptanceTest.py
+++ b/CIM15/IEC61968/Assets/AcceptanceTest.py
@@ -18,12 +18,13 @@
 # FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 # IN THE SOFTWARE.
 
+from CIM15.Element import Element
 
-class AcceptanceTest(object):
+class AcceptanceTest(Element):
     """Acceptance test for assets.Acceptance test for assets.
     """
 
-    def __init__(self, success=False, dateTime='', type=''):
+    def __init__(self, success=False, dateTime='', type='', *args, **kw_args):
         """Initialises a new 'AcceptanceTest' instance.
 
         @param success: True if asset has passed acceptance test and may be placed in or is in service. It is set to false if asset is removed from service and is required to be tested again before being placed back in service, possibly in a new location. Since asset may go through multiple tests during its life cycle, the date of each acceptance test may be recorded in Asset.ActivityRecord.status.dateTime. 
@@ -39,6 +40,7 @@ class AcceptanceTest(object):
         #: Type of test or group of tests that was conducted on 'dateTime'.
         self.type = type
 
+        super(AcceptanceTest, self).__init__(*args, **kw_args)
 
     _attrs = ["success", "dateTime", "type"]
     _attr_types = {"success": bool, "dateTime": str, "type": str}
diff --git a/CIM15/IEC61968/Common/ElectronicAddress.py b/CIM15/IEC61968/Common/ElectronicAddress.py
index 0507d7c..472f0a5 100644
--- a/CIM15/IEC61968/Common/ElectronicAddress.py
+++ b/CIM15/IEC61968/Common/ElectronicAddress.py
@@ -18,12 +18,13 @@
 # FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 # IN THE SOFTWARE.
 
+from CIM15.Element import Element
 
-class ElectronicAddress(object):
+class ElectronicAddress(Element):
     """Electronic address information.Electronic address information.
     """
 
-    def __init__(self, radio='', password='', lan='', userID='', email='', web='', status=None):
+    def __init__(self, radio='', password='', lan='', userID='', email='', web='', status=None, *args, **kw_args):
         """Initialises a new 'ElectronicAddress' instance.
 
         @param radio: Radio address. 
@@ -54,6 +55,7 @@ class ElectronicAddress(object):
 
         self.status = status
 
+        super(ElectronicAddress, self).__init__(*args, **kw_args)
 
     _attrs = ["radio", "password", "lan", "userID", "email", "web"]
     _attr_types = {"radio": str, "password": str, "lan": str, "userID": str, "email": str, "web": str}
diff --git a/CIM15/IEC61968/Common/PostalAddress.py b/CIM15/IEC61968/Common/PostalAddress.py
index af0d4e2..790a79f 100644
--- a/CIM15/IEC61968/Common/PostalAddress.py
+++ b/CIM15/IEC61968/Common/PostalAddress.py
@@ -18,12 +18,13 @@
 # FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 # IN THE SOFTWARE.
 
+from CIM15.Element import Element
 
-class PostalAddress(object):
+class PostalAddress(Element):
     """General purpose postal address information.General purpose postal address information.
     """
 
-    def __init__(self, poBox='', postalCode='', streetDetail=None, townDetail=None):
+    def __init__(self, poBox='', postalCode='', streetDetail=None, townDetail=None, *args, **kw_args):
         """Initialises a new 'PostalAddress' instance.
 
         @param poBox: Post office box. 
@@ -41,6 +42,7 @@ class PostalAddress(object):
 
         self.townDetail = townDetail
 
+        super(PostalAddress, self).__init__(*args, **kw_args)
 
     _attrs = ["poBox", "postalCode"]
     _attr_types = {"poBox": str, "postalCode": str}
diff --git a/CIM15/IEC61968/Common/Status.py b/CIM15/IEC61968/Common/Status.py
index 2f2928a..67afc87 100644
--- a/CIM15/IEC61968/Common/Status.py
+++ b/CIM15/IEC61968/Common/Status.py
@@ -18,12 +18,13 @@
 # FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 # IN THE SOFTWARE.
 
+from CIM15.Element import Element
 
-class Status(object):
+class Status(Element):
     """Current status information relevant to an entity.Current status information relevant to an entity.
     """
 
-    def __init__(self, reason='', dateTime='', value='', remark=''):
+    def __init__(self, reason='', dateTime='', value='', remark='', *args, **kw_args):
         """Initialises a new 'Status' instance.
 
         @param reason: Reason code or explanation for why an object went to the current status 'value'. 
@@ -43,6 +44,7 @@ class Status(object):
         #: Pertinent information regarding the current 'value', as free form text.
         self.remark = remark
 
+        super(Status, self).__init__(*args, **kw_args)
 
     _attrs = ["reason", "dateTime", "value", "remark"]
     _attr_types = {"reason": str, "dateTime": str, "value": str, "remark": str}
diff --git a/CIM15/IEC61968/Common/StreetAddress.py b/CIM15/IEC61968/Common/StreetAddress.py
index c2535e1..e6f457f 100644
--- a/CIM15/IEC61968/Common/StreetAddress.py
+++ b/CIM15/IEC61968/Common/StreetAddress.py
@@ -18,12 +18,13 @@
 # FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 # IN THE SOFTWARE.
 
+from CIM15.Element import Element
 
-class StreetAddress(object):
+class StreetAddress(Element):
     """General purpose street address information.General purpose street address information.
     """
 
-    def __init__(self, status=None, streetDetail=None, townDetail=None):
+    def __init__(self, status=None, streetDetail=None, townDetail=None, *args, **kw_args):
         """Initialises a new 'StreetAddress' instance.
 
         @param status: Status of this address.
@@ -36,6 +37,7 @@ class StreetAddress(object):
 
         self.townDetail = townDetail
 
+        super(StreetAddress, self).__init__(*args, **kw_args)
 
     _attrs = []
     _attr_types = {}
diff --git a/CIM15/IEC61968/Common/StreetDetail.py b/CIM15/IEC61968/Common/StreetDetail.py
index e768467..773e1be 100644
--- a/CIM15/IEC61968/Common/StreetDetail.py
+++ b/CIM15/IEC61968/Common/StreetDetail.py
@@ -18,12 +18,13 @@
 # FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 # IN THE SOFTWARE.
 
+from CIM15.Element import Element
 
-class StreetDetail(object):
+class StreetDetail(Element):
     """Street details, in the context of address.Street details, in the context of address.
     """
 
-    def __init__(self, withinTownLimits=False, name='', type='', prefix='', buildingName='', suiteNumber='', suffix='', addressGeneral='', code='', number=''):
+    def __init__(self, withinTownLimits=False, name='', type='', prefix='', buildingName='', suiteNumber='', suffix='', addressGeneral='', code='', number='', *args, **kw_args):
         """Initialises a new 'StreetDetail' instance.
 
         @param withinTownLimits: True if this street is within the legal geographical boundaries of the specified town (default). 
@@ -67,6 +68,7 @@ class StreetDetail(object):
         #: Designator of the specific location on the street.
         self.number = number
 
+        super(StreetDetail, self).__init__(*args, **kw_args)
 
     _attrs = ["withinTownLimits", "name", "type", "prefix", "buildingName", "suiteNumber", "suffix", "addressGeneral", "code", "number"]
     _attr_types = {"withinTownLimits": bool, "name": str, "type": str, "prefix": str, "buildingName": str, "suiteNumber": str, "suffix": str, "addressGeneral": str, "code": str, "number": str}
diff --git a/CIM15/IEC61968/Common/TelephoneNumber.py b/CIM15/IEC61968/Common/TelephoneNumber.py
index 2a7635f..f7b3330 100644
--- a/CIM15/IEC61968/Common/TelephoneNumber.py
+++ b/CIM15/IEC61968/Common/TelephoneNumber.py
@@ -18,12 +18,13 @@
 # FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 # IN THE SOFTWARE.
 
+from CIM15.Element import Element
 
-class TelephoneNumber(object):
+class TelephoneNumber(Element):
     """Telephone number.Telephone number.
     """
 
-    def __init__(self, cityCode='', localNumber='', extension='', areaCode='', countryCode=''):
+    def __init__(self, cityCode='', localNumber='', extension='', areaCode='', countryCode='', *args, **kw_args):
         """Initialises a new 'TelephoneNumber' instance.
 
         @param cityCode: (if applicable) City code. 
@@ -47,6 +48,7 @@ class TelephoneNumber(object):
         #: Country code.
         self.countryCode = countryCode
 
+        super(TelephoneNumber, self).__init__(*args, **kw_args)
 
     _attrs = ["cityCode", "localNumber", "extension", "areaCode", "countryCode"]
     _attr_types = {"cityCode": str, "localNumber": str, "extension": str, "areaCode": str, "countryCode": str}
diff --git a/CIM15/IEC61968/Common/TownDetail.py b/CIM15/IEC61968/Common/TownDetail.py
index cfd98b9..07f3098 100644
--- a/CIM15/IEC61968/Common/TownDetail.py
+++ b/CIM15/IEC61968/Common/TownDetail.py
@@ -18,12 +18,13 @@
 # FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 # IN THE SOFTWARE.
 
+from CIM15.Element import Element
 
-class TownDetail(object):
+class TownDetail(Element):
     """Town details, in the context of address.Town details, in the context of address.
     """
 
-    def __init__(self, name='', stateOrProvince='', section='', code='', country=''):
+    def __init__(self, name='', stateOrProvince='', section='', code='', country='', *args, **kw_args):
         """Initialises a new 'TownDetail' instance.
 
         @param name: Town name. 
@@ -47,6 +48,7 @@ class TownDetail(object):
         #: Name of the country.
         self.country = country
 
+        super(TownDetail, self).__init__(*args, **kw_args)
 
     _attrs = ["name", "stateOrProvince", "section", "code", "country"]
     _attr_types = {"name": str, "stateOrProvince": str, "section": str, "code": str, "country": str}
diff --git a/CIM15/IEC61968/LoadControl/RemoteConnectDisconnectInfo.py b/CIM15/IEC61968/LoadControl/RemoteConnectDisconnectInfo.py
index 057efb4..ee9955c 100644
--- a/CIM15/IEC61968/LoadControl/RemoteConnectDisconnectInfo.py
+++ b/CIM15/IEC61968/LoadControl/RemoteConnectDisconnectInfo.py
@@ -18,12 +18,13 @@
 # FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 # IN THE SOFTWARE.
 
+from CIM15.Element import Element
 
-class RemoteConnectDisconnectInfo(object):
+class RemoteConnectDisconnectInfo(Element):
     """Details of remote connect disconnect function.Details of remote connect disconnect function.
     """
 
-    def __init__(self, isArmConnect=False, energyUsageWarning=0.0, needsVoltageLimitCheck=False, customerVoltageLimit=0.0, isArmDisconnect=False, isEnergyLimiting=False, armedTimeout=0.0, powerLimit=0.0, needsPowerLimitCheck=False, usePushbutton=False, energyLimit=0.0, energyUsageStartDateTime=''):
+    def __init__(self, isArmConnect=False, energyUsageWarning=0.0, needsVoltageLimitCheck=False, customerVoltageLimit=0.0, isArmDisconnect=False, isEnergyLimiting=False, armedTimeout=0.0, powerLimit=0.0, needsPowerLimitCheck=False, usePushbutton=False, energyLimit=0.0, energyUsageStartDateTime='', *args, **kw_args):
         """Initialises a new 'RemoteConnectDisconnectInfo' instance.
 
         @param isArmConnect: True if the RCD switch must be armed before a connect action can be initiated. 
@@ -75,6 +76,7 @@ class RemoteConnectDisconnectInfo(object):
         #: Start date and time to accumulate energy for energy usage limiting.
         self.energyUsageStartDateTime = energyUsageStartDateTime
 
+        super(RemoteConnectDisconnectInfo, self).__init__(*args, **kw_args)
 
     _attrs = ["isArmConnect", "energyUsageWarning", "needsVoltageLimitCheck", "customerVoltageLimit", "isArmDisconnect", "isEnergyLimiting", "armedTimeout", "powerLimit", "needsPowerLimitCheck", "usePushbutton", "energyLimit", "energyUsageStartDateTime"]
     _attr_types = {"isArmConnect": bool, "energyUsageWarning": float, "needsVoltageLimitCheck": bool, "customerVoltageLimit": float, "isArmDisconnect": bool, "isEnergyLimiting": bool, "armedTimeout": float, "powerLimit": float, "needsPowerLimitCheck": bool, "usePushbutton": bool, "energyLimit": float, "energyUsageStartDateTime": str}
diff --git a/CIM15/IEC61968/Metering/DynamicDemand.py b/CIM15/IEC61968/Metering/DynamicDemand.py
index ac40426..2a5625a 100644
--- a/CIM15/IEC61968/Metering/DynamicDemand.py
+++ b/CIM15/IEC61968/Metering/DynamicDemand.py
@@ -18,12 +18,13 @@
 # FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 # IN THE SOFTWARE.
 
+from CIM15.Element import Element
 
-class DynamicDemand(object):
+class DynamicDemand(Element):
     """Dynamic demand description. The formula by which demand is measured is an important underlying definition to the measurement. Generally speaking, all of the meters in a given utility will be configured to measure demand the same way. Nevertheless, it must be defined. An 'interval' of 60 min, 30 min, 15 min, 10 min or 5 min must be defined to describe the interval of time over which usage is measured. When demand is defined to be DemandKind.rollingBlock, both an 'interval' and a 'subinterval' must be defined, where the 'subinterval' must be a multiple of the 'interval' which contains it. A common setting is '15-minute rolling block with 5-minute subintervals.'Dynamic demand description. The formula by which demand is measured is an important underlying definition to the measurement. Generally speaking, all of the meters in a given utility will be configured to measure demand the same way. Nevertheless, it must be defined. An 'interval' of 60 min, 30 min, 15 min, 10 min or 5 min must be defined to describe the interval of time over which usage is measured. When demand is defined to be DemandKind.rollingBlock, both an 'interval' and a 'subinterval' must be defined, where the 'subinterval' must be a multiple of the 'interval' which contains it. A common setting is '15-minute rolling block with 5-minute subintervals.'
     """
 
-    def __init__(self, subInterval=0.0, interval=0.0, kind="fixedBlock"):
+    def __init__(self, subInterval=0.0, interval=0.0, kind="fixedBlock", *args, **kw_args):
         """Initialises a new 'DynamicDemand' instance.
 
         @param subInterval: (if 'kind'=rollingBlock) Subinterval, must be multiple of 'interval' that contains it. 
@@ -39,6 +40,7 @@ class DynamicDemand(object):
         #: Kind of demand. Values are: "fixedBlock", "rollingBlock", "logarithmic"
         self.kind = kind
 
+        super(DynamicDemand, self).__init__(*args, **kw_args)
 
     _attrs = ["subInterval", "interval", "kind"]
     _attr_types = {"subInterval": float, "interval": float, "kind": str}
diff --git a/CIM15/IEC61968/Metering/ReadingMultiplier.py b/CIM15/IEC61968/Metering/ReadingMultiplier.py
index b055921..af94308 100644
--- a/CIM15/IEC61968/Metering/ReadingMultiplier.py
+++ b/CIM15/IEC61968/Metering/ReadingMultiplier.py
@@ -18,12 +18,13 @@
 # FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 # IN THE SOFTWARE.
 
+from CIM15.Element import Element
 
-class ReadingMultiplier(object):
+class ReadingMultiplier(Element):
     """The multiplier value with its application status.The multiplier value with its application status.
     """
 
-    def __init__(self, value=0.0, isApplied=False):
+    def __init__(self, value=0.0, isApplied=False, *args, **kw_args):
         """Initialises a new 'ReadingMultiplier' instance.
 
         @param value: Value of the multiplier. 
@@ -35,6 +36,7 @@ class ReadingMultiplier(object):
         #: True if the multiplier has been applied to associated quantities.
         self.isApplied = isApplied
 
+        super(ReadingMultiplier, self).__init__(*args, **kw_args)
 
     _attrs = ["value", "isApplied"]
     _attr_types = {"value": float, "isApplied": bool}
diff --git a/CIM15/IEC61968/PaymentMetering/AccountMovement.py b/CIM15/IEC61968/PaymentMetering/AccountMovement.py
index be967d0..84b040c 100644
--- a/CIM15/IEC61968/PaymentMetering/AccountMovement.py
+++ b/CIM15/IEC61968/PaymentMetering/AccountMovement.py
@@ -18,12 +18,13 @@
 # FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 # IN THE SOFTWARE.
 
+from CIM15.Element import Element
 
-class AccountMovement(object):
+class AccountMovement(Element):
     """Credit/debit movements for an account.Credit/debit movements for an account.
     """
 
-    def __init__(self, dateTime='', reason='', amount=0.0):
+    def __init__(self, dateTime='', reason='', amount=0.0, *args, **kw_args):
         """Initialises a new 'AccountMovement' instance.
 
         @param dateTime: Date and time when the credit/debit transaction was performed. 
@@ -39,6 +40,7 @@ class AccountMovement(object):
         #: Amount that was credited to/debited from an account. For example: payment received/interest charge on arrears.
         self.amount = amount
 
+        super(AccountMovement, self).__init__(*args, **kw_args)
 
     _attrs = ["dateTime", "reason", "amount"]
     _attr_types = {"dateTime": str, "reason": str, "amount": float}
diff --git a/CIM15/IEC61968/PaymentMetering/AccountingUnit.py b/CIM15/IEC61968/PaymentMetering/AccountingUnit.py
index 67a57db..a05854d 100644
--- a/CIM15/IEC61968/PaymentMetering/AccountingUnit.py
+++ b/CIM15/IEC61968/PaymentMetering/AccountingUnit.py
@@ -18,12 +18,13 @@
 # FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 # IN THE SOFTWARE.
 
+from CIM15.Element import Element
 
-class AccountingUnit(object):
+class AccountingUnit(Element):
     """Unit for accounting; use either 'energyUnit' or 'currencyUnit' to specify the unit for 'value'.Unit for accounting; use either 'energyUnit' or 'currencyUnit' to specify the unit for 'value'.
     """
 
-    def __init__(self, multiplier="M", energyUnit=0.0, monetaryUnit="CAD", value=0.0):
+    def __init__(self, multiplier="M", energyUnit=0.0, monetaryUnit="CAD", value=0.0, *args, **kw_args):
         """Initialises a new 'AccountingUnit' instance.
 
         @param multiplier: Multiplier for the 'energyUnit' or 'monetaryUnit'. Values are: "M", "G", "d", "micro", "c", "p", "n", "T", "k", "m", "none"
@@ -43,6 +44,7 @@ class AccountingUnit(object):
         #: Value expressed in applicable units.
         self.value = value
 
+        super(AccountingUnit, self).__init__(*args, **kw_args)
 
     _attrs = ["multiplier", "energyUnit", "monetaryUnit", "value"]
     _attr_types = {"multiplier": str, "energyUnit": float, "monetaryUnit": str, "value": float}
diff --git a/CIM15/IEC61968/PaymentMetering/BankAccountDetail.py b/CIM15/IEC61968/PaymentMetering/BankAccountDetail.py
index be61f5e..3c5ff7a 100644
--- a/CIM15/IEC61968/PaymentMetering/BankAccountDetail.py
+++ b/CIM15/IEC61968/PaymentMetering/BankAccountDetail.py
@@ -18,12 +18,13 @@
 # FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 # IN THE SOFTWARE.
 
+from CIM15.Element import Element
 
-class BankAccountDetail(object):
+class BankAccountDetail(Element):
     """Details of a bank account.Details of a bank account.
     """
 
-    def __init__(self, holderID='', holderName='', bankName='', branchCode='', accountNumber=''):
+    def __init__(self, holderID='', holderName='', bankName='', branchCode='', accountNumber='', *args, **kw_args):
         """Initialises a new 'BankAccountDetail' instance.
 
         @param holderID: National identity number (or equivalent) of account holder. 
@@ -47,6 +48,7 @@ class BankAccountDetail(object):
         #: Operational account reference number.
         self.accountNumber = accountNumber
 
+        super(BankAccountDetail, self).__init__(*args, **kw_args)
 
     _attrs = ["holderID", "holderName", "bankName", "branchCode", "accountNumber"]
     _attr_types = {"holderID": str, "holderName": str, "bankName": str, "branchCode": str, "accountNumber": str}
diff --git a/CIM15/IEC61968/PaymentMetering/Due.py b/CIM15/IEC61968/PaymentMetering/Due.py
index b213152..6bd6475 100644
--- a/CIM15/IEC61968/PaymentMetering/Due.py
+++ b/CIM15/IEC61968/PaymentMetering/Due.py
@@ -18,12 +18,13 @@
 # FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 # IN THE SOFTWARE.
 
+from CIM15.Element import Element
 
-class Due(object):
+class Due(Element):
     """Details on amounts due for an account.Details on amounts due for an account.
     """
 
-    def __init__(self, interest=0.0, charges=0.0, principle=0.0, current=0.0, arrears=0.0):
+    def __init__(self, interest=0.0, charges=0.0, principle=0.0, current=0.0, arrears=0.0, *args, **kw_args):
         """Initialises a new 'Due' instance.
 
         @param interest: Part of 'current' that constitutes the interest portion. 
@@ -47,6 +48,7 @@ class Due(object):
         #: Part of 'current' that constitutes the arrears portion.
         self.arrears = arrears
 
+        super(Due, self).__init__(*args, **kw_args)
 
     _attrs = ["interest", "charges", "principle", "current", "arrears"]
     _attr_types = {"interest": float, "charges": float, "principle": float, "current": float, "arrears": float}
diff --git a/CIM15/IEC61968/PaymentMetering/LineDetail.py b/CIM15/IEC61968/PaymentMetering/LineDetail.py
index 071f8bc..f7ad600 100644
--- a/CIM15/IEC61968/PaymentMetering/LineDetail.py
+++ b/CIM15/IEC61968/PaymentMetering/LineDetail.py
@@ -18,12 +18,13 @@
 # FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 # IN THE SOFTWARE.
 
+from CIM15.Element import Element
 
-class LineDetail(object):
+class LineDetail(Element):
     """Details on an amount line, with rounding, date and note.Details on an amount line, with rounding, date and note.
     """
 
-    def __init__(self, amount=0.0, rounding=0.0, dateTime='', note=''):
+    def __init__(self, amount=0.0, rounding=0.0, dateTime='', note='', *args, **kw_args):
         """Initialises a new 'LineDetail' instance.
 
         @param amount: Amount for this line item. 
@@ -43,6 +44,7 @@ class LineDetail(object):
         #: Free format note relevant to this line.
         self.note = note
 
+        super(LineDetail, self).__init__(*args, **kw_args)
 
     _attrs = ["amount", "rounding", "dateTime", "note"]
     _attr_types = {"amount": float, "rounding": float, "dateTime": str, "note": str}
diff --git a/CIM15/IEC61970/Domain/DateTimeInterval.py b/CIM15/IEC61970/Domain/DateTimeInterval.py
index 0217487..43f6d5c 100644
--- a/CIM15/IEC61970/Domain/DateTimeInterval.py
+++ b/CIM15/IEC61970/Domain/DateTimeInterval.py
@@ -18,12 +18,13 @@
 # FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 # IN THE SOFTWARE.
 
+from CIM15.Element import Element
 
-class DateTimeInterval(object):
+class DateTimeInterval(Element):
     """Interval of date and time.Interval of date and time.
     """
 
-    def __init__(self, start='', end=''):
+    def __init__(self, start='', end='', *args, **kw_args):
         """Initialises a new 'DateTimeInterval' instance.
 
         @param start: Date and time that this interval started. 
@@ -35,6 +36,7 @@ class DateTimeInterval(object):
         #: Date and time that this interval ended.
         self.end = end
 
+        super(DateTimeInterval, self).__init__(*args, **kw_args)
 
     _attrs = ["start", "end"]
     _attr_types = {"start": str, "end": str}
diff --git a/CIM15/IEC61970/Informative/InfCommon/Ratio.py b/CIM15/IEC61970/Informative/InfCommon/Ratio.py
index 05590cb..6e1b375 100644
--- a/CIM15/IEC61970/Informative/InfCommon/Ratio.py
+++ b/CIM15/IEC61970/Informative/InfCommon/Ratio.py
@@ -18,12 +18,13 @@
 # FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 # IN THE SOFTWARE.
 
+from CIM15.Element import Element
 
-class Ratio(object):
+class Ratio(Element):
     """Fraction specified explicitly with a numerator and denominator, which can be used to calculate the quotient.Fraction specified explicitly with a numerator and denominator, which can be used to calculate the quotient.
     """
 
-    def __init__(self, numerator=0.0, denominator=0.0):
+    def __init__(self, numerator=0.0, denominator=0.0, *args, **kw_args):
         """Initialises a new 'Ratio' instance.
 
         @param numerator: The part of a fraction that is above the line and signifies the number to be divided by the denominator. 
@@ -35,6 +36,7 @@ class Ratio(object):
         #: The part of a fraction that is below the line and that functions as the divisor of the numerator.
         self.denominator = denominator
 
+        super(Ratio, self).__init__(*args, **kw_args)
 
     _attrs = ["numerator", "denominator"]
     _attr_types = {"numerator": float, "denominator": float}
-- 
2.43.0


From 23b88f3931d73baa1aa8fdbc7ae0acff8795a55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:13 +0000
Subject: [PATCH 16/31] fix: ErpLedgerEntry and ErpLedBudLineItem could not be
 instantiated

Each has an association end named like the class itself; the constructor
parameter hid the class from super().
---
 CIM15/IEC61970/Informative/InfERPSupport/ErpLedBudLineItem.py | 3 ++-
 CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedBudLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedBudLineItem.py
index 6ce04bb..a9551ae 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedBudLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedBudLineItem.py
@@ -39,7 +39,8 @@ class ErpLedBudLineItem(IdentifiedObject):
 
         self.status = status
 
-        super(ErpLedBudLineItem, self).__init__(*args, **kw_args)
+        # The parameter of the same name hides the class from super().
+        IdentifiedObject.__init__(self, *args, **kw_args)
 
     _attrs = []
     _attr_types = {}
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py
index a06a327..648de71 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py
@@ -67,7 +67,8 @@ class ErpLedgerEntry(IdentifiedObject):
         self._ErpJounalEntry = None
         self.ErpJounalEntry = ErpJounalEntry
 
-        super(ErpLedgerEntry, self).__init__(*args, **kw_args)
+        # The parameter of the same name hides the class from super().
+        IdentifiedObject.__init__(self, *args, **kw_args)
 
     _attrs = ["transactionDateTime", "accountKind", "amount", "postedDateTime", "accountID"]
     _attr_types = {"transactionDateTime": str, "accountKind": str, "amount": float, "postedDateTime": str, "accountID": str}
-- 
2.43.0


From a3f578aca68b2752705f78040cb7c5f2ca85d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:42 +0000
Subject: [PATCH 17/31] fix: the CIM version was only detected under the prefix
 'cim'

---
 PyCIM/RDFXMLReader.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index 22a6ade..c9a3070 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -275,19 +275,27 @@ def get_cim_ns(namespaces):
     returns the appropriate *nsURI* and *packageMap*.
 
     """
+    import CIM14, CIM15
+
+    CIM16nsURI = 'http://iec.ch/TC57/2013/CIM-schema-cim16'
+
     try:
         ns = namespaces['cim']
         if ns.endswith('#'):
             ns = ns[:-1]
     except KeyError:
-        ns = ''
-        logger.error('No CIM namespace defined in input file.')
-
-    CIM16nsURI = 'http://iec.ch/TC57/2013/CIM-schema-cim16'
+        # The prefix is the document's choice: look for a known CIM namespace.
+        known = [CIM14.nsURI, CIM15.nsURI, CIM16nsURI]
+        found = [u[:-1] for u in namespaces.values()
+                 if u and u.endswith('#') and u[:-1] in known]
+        if found:
+            ns = found[0]
+        else:
+            ns = ''
+            logger.error('No CIM namespace defined in input file.')
 
     nsuri = ns
 
-    import CIM14, CIM15
     if ns == CIM14.nsURI:
         ns = 'CIM14'
     elif ns == CIM15.nsURI:
-- 
2.43.0


From 4a85b4f1ed0c99483a9451f2984ee86d5416439f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:36 +0000
Subject: [PATCH 18/31] fix: pretty printing turned carriage returns into
 newlines

---
 PyCIM/PrettyPrintXML.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyCIM/PrettyPrintXML.py b/PyCIM/PrettyPrintXML.py
index bb1a9a0..1641fb2 100644
--- a/PyCIM/PrettyPrintXML.py
+++ b/PyCIM/PrettyPrintXML.py
@@ -23,7 +23,8 @@ from xml.etree.cElementTree import parse, tostring
 def xmlpp(source):
     root = parse(source).getroot()
     indent(root)
-    return tostring(root)
+    # A bare carriage return would be read back as a newline.
+    return tostring(root).replace(b"\r", b"&#13;")
 
 def indent(elem, level=0):
     i = "\n" + level*"  "
-- 
2.43.0


From 273b10cbfd29e806f2b54ef1562dc160b2424d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:42 +0000
Subject: [PATCH 19/31] fix: convert attribute values to their declared type
 whatever the object holds

The type was taken from the current value: a value could not be loaded into an
attribute set to None, and a float could not be loaded into one that had been
given a whole number.
---
 PyCIM/RDFXMLReader.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index c9a3070..cd744e0 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -170,7 +170,7 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
                             if uuid2 is None: # attribute
                                 # Convert value type using the default value.
                                 try:
-                                    typ = type( getattr(obj, attr) )
+                                    typ = type( get_default(obj, attr) )
                                     if typ == type(True): # KKG: Test if it is boolean value
                                         # KKG: NB: The function bool("false") returns True, because it is called upon non-empty string!
                                         # This means that it wrongly reads "false" value as boolean True and this is why this special case testing is necessary
@@ -238,6 +238,19 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
     return d
 
 
+def get_default(obj, attr):
+    """
+    Returns the declared default of an attribute (its current value may be of
+    another type, e.g. None), or the current value if it is not declared.
+
+    """
+    for klass in obj.__class__.mro():
+        if attr in getattr(klass, "_defaults", {}):
+            return klass._defaults[attr]
+
+    return getattr(obj, attr)
+
+
 def xmlns(source):
     """
     Returns a map of prefix to namespace for the given XML file.
-- 
2.43.0


From dc165b2d42417683f56876d4e9ebf12c9328ec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:32 +0000
Subject: [PATCH 20/31] fix: loads in several threads failed when they were the
 first to use their classes

The packages of classes import each other, so that Python reports a deadlock or
a partially initialised module when two threads start with different ones.
---
 PyCIM/RDFXMLReader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index cd744e0..0450090 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -23,10 +23,15 @@
 
 from xml.etree.cElementTree import iterparse
 from time import time
+from threading import RLock
 
 import logging
 logger = logging.getLogger(__name__)
 
+# The packages of classes import each other, which fails if several threads
+# start with different ones at the same time.
+import_lock = RLock()
+
 
 def cimread(source, packageMap=None, nsURI=None, start_dict=None):
     """ CIM RDF/XML parser.
@@ -105,7 +110,8 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
                     root.clear()
                     continue
                 # Import the module for the CIM object.
-                module = __import__(mname, globals(), locals(), [tag], 0)
+                with import_lock:
+                    module = __import__(mname, globals(), locals(), [tag], 0)
                 # Get the CIM class from the module.
                 klass = getattr(module, tag)
 
-- 
2.43.0


From ef6cde7ebf769ad70730b878fd015151806fb459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:04 +0000
Subject: [PATCH 21/31] fix: impedances of derived classes were missing from
 SequenceImpedance and PhaseImpedance

---
 CIM15/IEC61970/Wires/ACLineSegment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CIM15/IEC61970/Wires/ACLineSegment.py b/CIM15/IEC61970/Wires/ACLineSegment.py
index 6922423..e5e5a78 100644
--- a/CIM15/IEC61970/Wires/ACLineSegment.py
+++ b/CIM15/IEC61970/Wires/ACLineSegment.py
@@ -116,7 +116,7 @@ class ACLineSegment(Conductor):
     def getSequenceImpedance(self):
         """Sequence impedance of this line segment; used for balanced model.
         """
-        if type(self.PerLengthImpedance) is PerLengthSequenceImpedance:
+        if isinstance(self.PerLengthImpedance, PerLengthSequenceImpedance):
             return self.PerLengthImpedance
         else:
             return None
@@ -202,7 +202,7 @@ class ACLineSegment(Conductor):
     def getPhaseImpedance(self):
         """Phase impedance of this line segment; used for unbalanced model.
         """
-        if type(self.PerLengthImpedance) is PerLengthPhaseImpedance:
+        if isinstance(self.PerLengthImpedance, PerLengthPhaseImpedance):
             return self.PerLengthImpedance
         else:
             return None
-- 
2.43.0


From 4da4c6377e0213c2458326fc1c9575a6cd119c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:49 +0000
Subject: [PATCH 22/31] fix: documents could replace methods and internals of
 objects

---
 PyCIM/RDFXMLReader.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index 0450090..54b0119 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -159,7 +159,7 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
                             # Get the attribute/reference name.
                             attr = elem.tag[m:].rsplit(".")[-1]
 
-                            if not hasattr(obj, attr):
+                            if not is_property(obj, attr):
                                 error_msg = "'%s' has not attribute '%s'" %(obj.__class__.__name__, attr)
                                 try:
                                     logger_errors_grouped[error_msg] += 1
@@ -244,6 +244,16 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
     return d
 
 
+def is_property(obj, attr):
+    """
+    Tells attributes and references from anything else that an object has by
+    that name: documents must not replace its methods or internals.
+
+    """
+    return hasattr(obj, attr) and not attr.startswith("_") and \
+            not callable(getattr(obj.__class__, attr, None))
+
+
 def get_default(obj, attr):
     """
     Returns the declared default of an attribute (its current value may be of
-- 
2.43.0


From 44788925ba1452eabb95be759ee8b2e210256281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:31 +0000
Subject: [PATCH 23/31] fix: booleans written as 1 or with white space around
 them were read as false

---
 PyCIM/RDFXMLReader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index 54b0119..248e1aa 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -180,7 +180,8 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
                                     if typ == type(True): # KKG: Test if it is boolean value
                                         # KKG: NB: The function bool("false") returns True, because it is called upon non-empty string!
                                         # This means that it wrongly reads "false" value as boolean True and this is why this special case testing is necessary
-                                        if str.title(elem.text) == 'True':
+                                        # The number 1 is the other way to write "true".
+                                        if str.strip(elem.text).lower() in ('true', '1'):
                                             setattr(obj, attr, True)
                                         else:
                                             setattr(obj, attr, False)
-- 
2.43.0


From 8f89a96a8baf24f2453718bc37387d1f0b73be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:33 +0000
Subject: [PATCH 24/31] fix: a loaded document could not change a reference
 that was set

---
 PyCIM/RDFXMLReader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index 248e1aa..a708553 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -206,7 +206,10 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
                                         continue
 
                                     default = getattr(obj, attr)
-                                    if default == None: # 1..1 or 1..n
+                                    if default is val: # known from the other end
+                                        pass
+                                    # 1..1 or 1..n, set or referring to another
+                                    elif default == None or hasattr(default, "UUID"):
                                         # Rely on properties to set any
                                         # bi-directional references.
                                         setattr(obj, attr, val)
-- 
2.43.0


From d0c20b7cc77c51113fa2c019c21fb265d1152134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:13 +0000
Subject: [PATCH 25/31] fix: booleans and infinite or undefined floats were
 saved as Python writes them

---
 PyCIM/RDFXMLWriter.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/PyCIM/RDFXMLWriter.py b/PyCIM/RDFXMLWriter.py
index cb908db..118d8e4 100644
--- a/PyCIM/RDFXMLWriter.py
+++ b/PyCIM/RDFXMLWriter.py
@@ -82,7 +82,7 @@ def cimwrite(d, source, encoding="utf-8"):
                 val = getattr(obj, attr)
                 if val is not None and val != klass._defaults[attr]:
                     w.element(u"%s:%s.%s" % (nsPrefix, klass.__name__, attr),
-                              str(val))
+                              xml_value(val))
 
         # Serialise enumeration data-types.
         for klass in mro[2:]: # skip 'object' and 'Element'
@@ -118,6 +118,19 @@ def cimwrite(d, source, encoding="utf-8"):
     logger.info("%d CIM objects serialised in %.2fs.", len(d), time() - t0)
 
 
+def xml_value(val):
+    """
+    Returns the text of an attribute value the way XML Schema writes it.
+
+    """
+    if isinstance(val, bool):
+        return "true" if val else "false"
+    if isinstance(val, float): # also infinite and undefined values
+        return str(val).replace("inf", "INF").replace("nan", "NaN")
+
+    return str(val)
+
+
 if __name__ == "__main__":
     from RDFXMLReader import cimread
     from PrettyPrintXML import xmlpp
-- 
2.43.0


From a702d0e1e3c97887f1f70a922064cf46ddba57f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:39 +0000
Subject: [PATCH 26/31] fix: a reference to nothing in the document failed the
 load or linked a new object

A reference property without rdf:resource, or with one outside of the document,
was handled as an attribute or an enumeration: an empty element for a reference
that was set already built a new object of its class and linked it, and any
other raised AttributeError or IndexError.  It is reported and skipped, as a
reference to an absent object is.
---
 PyCIM/RDFXMLReader.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index a708553..d1516f4 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -173,6 +173,21 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
                             # between attributes and references/enums.
                             uuid2 = elem.get("{%s}resource" % ns_rdf)
 
+                            # Only a resource of this document can be what
+                            # a reference refers to, and an enumeration
+                            # literal follows a dot.
+                            if is_reference(obj, attr):
+                                void = uuid2 is None or uuid2[:1] != "#"
+                            else:
+                                void = uuid2 is not None and \
+                                        uuid2[:1] != "#" and "." not in uuid2
+                            if void:
+                                logger.error("'%s' [%s] has nothing to set "
+                                             "'%s' to [%s].",
+                                             obj.__class__.__name__, uuid,
+                                             attr, uuid2)
+                                continue
+
                             if uuid2 is None: # attribute
                                 # Convert value type using the default value.
                                 try:
@@ -258,6 +273,15 @@ def is_property(obj, attr):
             not callable(getattr(obj.__class__, attr, None))
 
 
+def is_reference(obj, attr):
+    """
+    Tells references to other objects from attributes and enumerations.
+
+    """
+    return any(attr in getattr(klass, "_refs", ())
+               for klass in obj.__class__.mro())
+
+
 def get_default(obj, attr):
     """
     Returns the declared default of an attribute (its current value may be of
-- 
2.43.0


From 3c280b11f7749b52ba8bb398682145eb2448db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:07 +0000
Subject: [PATCH 27/31] fix: texts that XML cannot carry were saved as a
 document that cannot be read

Control characters, lone surrogates, U+FFFE and U+FFFF have no form in XML 1.0.
Saving them returned normally, and the file was lost to any reader.  They are
refused with a ValueError.
---
 PyCIM/SimpleXMLWriter.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/PyCIM/SimpleXMLWriter.py b/PyCIM/SimpleXMLWriter.py
index 4fa6fc4..ce724a4 100644
--- a/PyCIM/SimpleXMLWriter.py
+++ b/PyCIM/SimpleXMLWriter.py
@@ -117,11 +117,22 @@ def encode_entity(text, pattern=_escape):
 
 del _escape
 
+# the characters that XML cannot carry in any form
+_illegal = re.compile("[\x00-\x08\x0b\x0c\x0e-\x1f]")
+if sys.version_info[0] > 2:
+    _illegal = re.compile("[\x00-\x08\x0b\x0c\x0e-\x1f\ud800-\udfff\ufffe\uffff]")
+
+def check_characters(s):
+    m = _illegal.search(s)
+    if m:
+        raise ValueError("XML cannot carry the character %r" % m.group())
+
 #
 # the following functions assume an ascii-compatible encoding
 # (or "utf-16")
 
 def escape_cdata(s, encoding=None):
+    check_characters(s)
     s = s.replace("&", "&amp;")
     s = s.replace("<", "&lt;")
     s = s.replace(">", "&gt;")
@@ -134,6 +145,7 @@ def escape_cdata(s, encoding=None):
     return s
 
 def escape_attrib(s, encoding=None):
+    check_characters(s)
     s = s.replace("&", "&amp;")
     s = s.replace("'", "&apos;")
     s = s.replace("\"", "&quot;")
@@ -234,6 +246,7 @@ class XMLWriter:
     # @param text Character data, as an 8-bit string or Unicode string.
 
     def data(self, text):
+        check_characters(text)
         self.__data.append(text)
 
     ##
-- 
2.43.0


From 14c009280b0eb9dde90815cee2ad1b13a3eb97d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:07 +0000
Subject: [PATCH 28/31] fix: a comment with two hyphens made the document
 unreadable

XML does not allow them and has no form to write them; they are refused.
---
 PyCIM/SimpleXMLWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyCIM/SimpleXMLWriter.py b/PyCIM/SimpleXMLWriter.py
index ce724a4..11dbbef 100644
--- a/PyCIM/SimpleXMLWriter.py
+++ b/PyCIM/SimpleXMLWriter.py
@@ -237,6 +237,8 @@ class XMLWriter:
     # @param comment Comment text, as an 8-bit string or Unicode string.
 
     def comment(self, comment):
+        if "--" in comment:
+            raise ValueError("a comment cannot contain '--'")
         self.__flush()
         self.__write("<!-- %s -->\n" % escape_cdata(comment, self.__encoding))
 
-- 
2.43.0


From 350085ab0795456e741a6687eafa48d0c2415d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:12 +0000
Subject: [PATCH 29/31] fix: adding an element to a list without an inverse
 twice listed it twice

Lists of the other associations hold an element once, and a document loaded
again into the same collection doubled these.
---
 .../Dynamics/DynamicsMetaBlockReference.py    |  3 +-
 CIM14/ENTSOE/Dynamics/Thing.py                | 48 ++++++++++++-------
 .../Protection/ProtectionEquipment.py         |  3 +-
 3 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockReference.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockReference.py
index a8c4d33..73f43d9 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockReference.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockReference.py
@@ -150,7 +150,8 @@ class DynamicsMetaBlockReference(CoreIdentifiedObject):
 
     def add_MetaBlock(self, *MetaBlock):
         for obj in MetaBlock:
-            self.MetaBlock.append(obj)
+            if obj not in self.MetaBlock:
+                self.MetaBlock.append(obj)
 
     def remove_MetaBlock(self, *MetaBlock):
         for obj in MetaBlock:
diff --git a/CIM14/ENTSOE/Dynamics/Thing.py b/CIM14/ENTSOE/Dynamics/Thing.py
index 61758de..3a29d84 100644
--- a/CIM14/ENTSOE/Dynamics/Thing.py
+++ b/CIM14/ENTSOE/Dynamics/Thing.py
@@ -86,7 +86,8 @@ class Thing(Element):
 
     def add_ScheduleSteps(self, *ScheduleSteps):
         for obj in ScheduleSteps:
-            self.ScheduleSteps.append(obj)
+            if obj not in self.ScheduleSteps:
+                self.ScheduleSteps.append(obj)
 
     def remove_ScheduleSteps(self, *ScheduleSteps):
         for obj in ScheduleSteps:
@@ -94,7 +95,8 @@ class Thing(Element):
 
     def add_synchronousGeneratorType(self, *synchronousGeneratorType):
         for obj in synchronousGeneratorType:
-            self.synchronousGeneratorType.append(obj)
+            if obj not in self.synchronousGeneratorType:
+                self.synchronousGeneratorType.append(obj)
 
     def remove_synchronousGeneratorType(self, *synchronousGeneratorType):
         for obj in synchronousGeneratorType:
@@ -102,7 +104,8 @@ class Thing(Element):
 
     def add_tpqo(self, *tpqo):
         for obj in tpqo:
-            self.tpqo.append(obj)
+            if obj not in self.tpqo:
+                self.tpqo.append(obj)
 
     def remove_tpqo(self, *tpqo):
         for obj in tpqo:
@@ -110,7 +113,8 @@ class Thing(Element):
 
     def add_ElectricalAssets(self, *ElectricalAssets):
         for obj in ElectricalAssets:
-            self.ElectricalAssets.append(obj)
+            if obj not in self.ElectricalAssets:
+                self.ElectricalAssets.append(obj)
 
     def remove_ElectricalAssets(self, *ElectricalAssets):
         for obj in ElectricalAssets:
@@ -118,7 +122,8 @@ class Thing(Element):
 
     def add_SafetyDocuments(self, *SafetyDocuments):
         for obj in SafetyDocuments:
-            self.SafetyDocuments.append(obj)
+            if obj not in self.SafetyDocuments:
+                self.SafetyDocuments.append(obj)
 
     def remove_SafetyDocuments(self, *SafetyDocuments):
         for obj in SafetyDocuments:
@@ -126,7 +131,8 @@ class Thing(Element):
 
     def add_ratedS(self, *ratedS):
         for obj in ratedS:
-            self.ratedS.append(obj)
+            if obj not in self.ratedS:
+                self.ratedS.append(obj)
 
     def remove_ratedS(self, *ratedS):
         for obj in ratedS:
@@ -134,7 +140,8 @@ class Thing(Element):
 
     def add_tppdo(self, *tppdo):
         for obj in tppdo:
-            self.tppdo.append(obj)
+            if obj not in self.tppdo:
+                self.tppdo.append(obj)
 
     def remove_tppdo(self, *tppdo):
         for obj in tppdo:
@@ -142,7 +149,8 @@ class Thing(Element):
 
     def add_tpdo(self, *tpdo):
         for obj in tpdo:
-            self.tpdo.append(obj)
+            if obj not in self.tpdo:
+                self.tpdo.append(obj)
 
     def remove_tpdo(self, *tpdo):
         for obj in tpdo:
@@ -150,7 +158,8 @@ class Thing(Element):
 
     def add_ChangeItems(self, *ChangeItems):
         for obj in ChangeItems:
-            self.ChangeItems.append(obj)
+            if obj not in self.ChangeItems:
+                self.ChangeItems.append(obj)
 
     def remove_ChangeItems(self, *ChangeItems):
         for obj in ChangeItems:
@@ -158,7 +167,8 @@ class Thing(Element):
 
     def add_ErpOrganisationRoles(self, *ErpOrganisationRoles):
         for obj in ErpOrganisationRoles:
-            self.ErpOrganisationRoles.append(obj)
+            if obj not in self.ErpOrganisationRoles:
+                self.ErpOrganisationRoles.append(obj)
 
     def remove_ErpOrganisationRoles(self, *ErpOrganisationRoles):
         for obj in ErpOrganisationRoles:
@@ -166,7 +176,8 @@ class Thing(Element):
 
     def add_CircuitSections(self, *CircuitSections):
         for obj in CircuitSections:
-            self.CircuitSections.append(obj)
+            if obj not in self.CircuitSections:
+                self.CircuitSections.append(obj)
 
     def remove_CircuitSections(self, *CircuitSections):
         for obj in CircuitSections:
@@ -174,7 +185,8 @@ class Thing(Element):
 
     def add_tppqo(self, *tppqo):
         for obj in tppqo:
-            self.tppqo.append(obj)
+            if obj not in self.tppqo:
+                self.tppqo.append(obj)
 
     def remove_tppqo(self, *tppqo):
         for obj in tppqo:
@@ -182,7 +194,8 @@ class Thing(Element):
 
     def add_DocumentRoles(self, *DocumentRoles):
         for obj in DocumentRoles:
-            self.DocumentRoles.append(obj)
+            if obj not in self.DocumentRoles:
+                self.DocumentRoles.append(obj)
 
     def remove_DocumentRoles(self, *DocumentRoles):
         for obj in DocumentRoles:
@@ -190,7 +203,8 @@ class Thing(Element):
 
     def add_PSREvent(self, *PSREvent):
         for obj in PSREvent:
-            self.PSREvent.append(obj)
+            if obj not in self.PSREvent:
+                self.PSREvent.append(obj)
 
     def remove_PSREvent(self, *PSREvent):
         for obj in PSREvent:
@@ -198,7 +212,8 @@ class Thing(Element):
 
     def add_OutageStepRoles(self, *OutageStepRoles):
         for obj in OutageStepRoles:
-            self.OutageStepRoles.append(obj)
+            if obj not in self.OutageStepRoles:
+                self.OutageStepRoles.append(obj)
 
     def remove_OutageStepRoles(self, *OutageStepRoles):
         for obj in OutageStepRoles:
@@ -206,7 +221,8 @@ class Thing(Element):
 
     def add_NetworkDataSets(self, *NetworkDataSets):
         for obj in NetworkDataSets:
-            self.NetworkDataSets.append(obj)
+            if obj not in self.NetworkDataSets:
+                self.NetworkDataSets.append(obj)
 
     def remove_NetworkDataSets(self, *NetworkDataSets):
         for obj in NetworkDataSets:
diff --git a/CIM14/IEC61970/Protection/ProtectionEquipment.py b/CIM14/IEC61970/Protection/ProtectionEquipment.py
index fbd1689..283a46b 100644
--- a/CIM14/IEC61970/Protection/ProtectionEquipment.py
+++ b/CIM14/IEC61970/Protection/ProtectionEquipment.py
@@ -66,7 +66,8 @@ class ProtectionEquipment(Equipment):
 
     def add_ProtectedSwitches(self, *ProtectedSwitches):
         for obj in ProtectedSwitches:
-            self.ProtectedSwitches.append(obj)
+            if obj not in self.ProtectedSwitches:
+                self.ProtectedSwitches.append(obj)
 
     def remove_ProtectedSwitches(self, *ProtectedSwitches):
         for obj in ProtectedSwitches:
-- 
2.43.0


From 955acd19c92b6ebf76184a85858a3ff108bf4cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:12 +0000
Subject: [PATCH 30/31] fix: objects built with the same list shared it for an
 association without an inverse

The constructors of the other associations only take the elements over.
---
 .../Dynamics/DynamicsMetaBlockReference.py    |  2 +-
 CIM14/ENTSOE/Dynamics/Thing.py                | 32 +++++++++----------
 .../Protection/ProtectionEquipment.py         |  2 +-
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockReference.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockReference.py
index 73f43d9..a1d8b16 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockReference.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockReference.py
@@ -49,7 +49,7 @@ class DynamicsMetaBlockReference(CoreIdentifiedObject):
         self._BlockParameter = []
         self.BlockParameter = [] if BlockParameter is None else BlockParameter
 
-        self.MetaBlock = [] if MetaBlock is None else MetaBlock
+        self.MetaBlock = [] if MetaBlock is None else list(MetaBlock)
 
         self._MetaBlockOutputReference = []
         self.MetaBlockOutputReference = [] if MetaBlockOutputReference is None else MetaBlockOutputReference
diff --git a/CIM14/ENTSOE/Dynamics/Thing.py b/CIM14/ENTSOE/Dynamics/Thing.py
index 3a29d84..ad2a144 100644
--- a/CIM14/ENTSOE/Dynamics/Thing.py
+++ b/CIM14/ENTSOE/Dynamics/Thing.py
@@ -43,37 +43,37 @@ class Thing(Element):
         @param OutageStepRoles:
         @param NetworkDataSets:
         """
-        self.ScheduleSteps = [] if ScheduleSteps is None else ScheduleSteps
+        self.ScheduleSteps = [] if ScheduleSteps is None else list(ScheduleSteps)
 
-        self.synchronousGeneratorType = [] if synchronousGeneratorType is None else synchronousGeneratorType
+        self.synchronousGeneratorType = [] if synchronousGeneratorType is None else list(synchronousGeneratorType)
 
-        self.tpqo = [] if tpqo is None else tpqo
+        self.tpqo = [] if tpqo is None else list(tpqo)
 
-        self.ElectricalAssets = [] if ElectricalAssets is None else ElectricalAssets
+        self.ElectricalAssets = [] if ElectricalAssets is None else list(ElectricalAssets)
 
-        self.SafetyDocuments = [] if SafetyDocuments is None else SafetyDocuments
+        self.SafetyDocuments = [] if SafetyDocuments is None else list(SafetyDocuments)
 
-        self.ratedS = [] if ratedS is None else ratedS
+        self.ratedS = [] if ratedS is None else list(ratedS)
 
-        self.tppdo = [] if tppdo is None else tppdo
+        self.tppdo = [] if tppdo is None else list(tppdo)
 
-        self.tpdo = [] if tpdo is None else tpdo
+        self.tpdo = [] if tpdo is None else list(tpdo)
 
-        self.ChangeItems = [] if ChangeItems is None else ChangeItems
+        self.ChangeItems = [] if ChangeItems is None else list(ChangeItems)
 
-        self.ErpOrganisationRoles = [] if ErpOrganisationRoles is None else ErpOrganisationRoles
+        self.ErpOrganisationRoles = [] if ErpOrganisationRoles is None else list(ErpOrganisationRoles)
 
-        self.CircuitSections = [] if CircuitSections is None else CircuitSections
+        self.CircuitSections = [] if CircuitSections is None else list(CircuitSections)
 
-        self.tppqo = [] if tppqo is None else tppqo
+        self.tppqo = [] if tppqo is None else list(tppqo)
 
-        self.DocumentRoles = [] if DocumentRoles is None else DocumentRoles
+        self.DocumentRoles = [] if DocumentRoles is None else list(DocumentRoles)
 
-        self.PSREvent = [] if PSREvent is None else PSREvent
+        self.PSREvent = [] if PSREvent is None else list(PSREvent)
 
-        self.OutageStepRoles = [] if OutageStepRoles is None else OutageStepRoles
+        self.OutageStepRoles = [] if OutageStepRoles is None else list(OutageStepRoles)
 
-        self.NetworkDataSets = [] if NetworkDataSets is None else NetworkDataSets
+        self.NetworkDataSets = [] if NetworkDataSets is None else list(NetworkDataSets)
 
         super(Thing, self).__init__(*args, **kw_args)
 
diff --git a/CIM14/IEC61970/Protection/ProtectionEquipment.py b/CIM14/IEC61970/Protection/ProtectionEquipment.py
index 283a46b..b87c15f 100644
--- a/CIM14/IEC61970/Protection/ProtectionEquipment.py
+++ b/CIM14/IEC61970/Protection/ProtectionEquipment.py
@@ -47,7 +47,7 @@ class ProtectionEquipment(Equipment):
         #: The time delay from detection of abnormal conditions to relay operation.
         self.relayDelayTime = relayDelayTime
 
-        self.ProtectedSwitches = [] if ProtectedSwitches is None else ProtectedSwitches
+        self.ProtectedSwitches = [] if ProtectedSwitches is None else list(ProtectedSwitches)
 
         self._Unit = None
         self.Unit = Unit
-- 
2.43.0


From 857b13eac6493ec67d93db77299f70fd9ce12079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:11 +0000
Subject: [PATCH 31/31] fix: a document could replace the identifier of an
 object by a property named UUID

---
 PyCIM/RDFXMLReader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index d1516f4..a3276f6 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -266,11 +266,11 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
 def is_property(obj, attr):
     """
     Tells attributes and references from anything else that an object has by
-    that name: documents must not replace its methods or internals.
+    that name: documents must not replace its methods, internals or identifier.
 
     """
     return hasattr(obj, attr) and not attr.startswith("_") and \
-            not callable(getattr(obj.__class__, attr, None))
+            attr != "UUID" and not callable(getattr(obj.__class__, attr, None))
 
 
 def is_reference(obj, attr):
-- 
2.43.0

