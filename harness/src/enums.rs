//! The enumerations of the library's interface and the words of the IFC standard for each of
//! their enumerators, written out here independently of the library's own tables.

use crate::step::V;
use crate::typed::ToV;
use ifc_rs::prelude::*;

fn word(t: &str) -> V {
    if let Some(e) = t.strip_prefix('.').and_then(|t| t.strip_suffix('.')) {
        V::Enum(e.to_string())
    } else if let Some(e) = t.strip_prefix('\'').and_then(|t| t.strip_suffix('\'')) {
        V::Str(e.to_string())
    } else {
        V::Num(t.to_string())
    }
}

macro_rules! tables {
    ($($name:ident { $($var:ident = $text:literal),* $(,)? })*) => {
        $(
            impl ToV for $name {
                fn tv(&self) -> V {
                    match self { $($name::$var => word($text)),* }
                }
            }
        )*
        /// words of an enumeration
        pub fn words(name: &str) -> Vec<V> {
            match name {
                $(stringify!($name) => vec![$(word($text)),*],)*
                "ConversionUnitName" => CONVERSION_NAMES.iter().map(|t| V::Str(t.to_string())).collect(),
                _ => panic!("no enumeration {name}"),
            }
        }
        $(
            impl Variants for $name {
                fn all() -> Vec<$name> { vec![$($name::$var),*] }
            }
        )*
    };
}

pub trait Variants: Sized {
    fn all() -> Vec<Self>;
}

tables! {
    DimensionCount {
        One = "1",
        Two = "2",
        Three = "3",
    }
    GeometricProjection {
        GraphView = ".GRAPH_VIEW.",
        SketchView = ".SKETCH_VIEW.",
        ModelView = ".MODEL_VIEW.",
        PlanView = ".PLAN_VIEW.",
        ReflectedPlanView = ".REFLECTED_PLAN_VIEW.",
        SectionView = ".SECTION_VIEW.",
        ElevationView = ".ELEVATION_VIEW.",
        UserDefined = ".USERDEFINED.",
        NotDefined = ".NOTDEFINED.",
    }
    ProfileType {
        Curve = ".CURVE.",
        Area = ".AREA.",
    }
    RepresentationIdentifier {
        CoG = "'CoG'",
        Box = "'Box'",
        Annotation = "'Annotation'",
        Axis = "'Axis'",
        FootPrint = "'FootPrint'",
        Profile = "'Profile'",
        Surface = "'Surface'",
        Reference = "'Reference'",
        Body = "'Body'",
        BodyFallBack = "'Body-FallBack'",
        Clearance = "'Clearance'",
        Lighting = "'Lighting'",
    }
    RepresentationType {
        Point = "'Point'",
        PointCloud = "'PointCloud'",
        Curve = "'Curve'",
        Curve2D = "'Curve2D'",
        Curve3D = "'Curve3D'",
        Surface = "'Surface'",
        Surface2D = "'Surface2D'",
        Surface3D = "'Surface3D'",
        SectionedSurface = "'SectionedSurface'",
        FillArea = "'FillArea'",
        Text = "'Text'",
        AdvancedSurface = "'AdvancedSurface'",
        GeometricSet = "'GeometricSet'",
        GeometricCurveSet = "'GeometricCurveSet'",
        Annotation2D = "'Annotation2D'",
        SurfaceModel = "'SurfaceModel'",
        Tessellation = "'Tessellation'",
        Segment = "'Segment'",
        SolidModel = "'SolidModel'",
        SweptSolid = "'SweptSolid'",
        AdvancedSweptSolid = "'AdvancedSweptSolid'",
        Brep = "'Brep'",
        AdvancedBrep = "'AdvancedBrep'",
        CSG = "'CSG'",
        Clipping = "'Clipping'",
        BoundingBox = "'BoundingBox'",
        SectionedSpine = "'SectionedSpine'",
        LightSource = "'LightSource'",
        MappedRepresentation = "'MappedRepresentation'",
    }
    DirectionSenseEnum {
        Positive = ".POSITIVE.",
        Negative = ".NEGATIVE.",
    }
    LayerSetDirectionEnum {
        Axis1 = ".AXIS1.",
        Axis2 = ".AXIS2.",
        Axis3 = ".AXIS3.",
    }
    AccessState {
        ReadWrite = ".READWRITE.",
        ReadOnly = ".READONLY.",
        Locked = ".LOCKED.",
        ReadWriteLocked = ".READWRITELOCKED.",
        ReadOnlyLocked = ".READONLYLOCKED.",
    }
    Role {
        Supplier = ".SUPPLIER.",
        Manufacturer = ".MANUFACTURER.",
        Contractor = ".CONTRACTOR.",
        Subcontractor = ".SUBCONTRACTOR.",
        Architect = ".ARCHITECT.",
        StructuralEngineer = ".STRUCTURALENGINEER.",
        CostEngineer = ".COSTENGINEER.",
        Clien = ".CLIENT.",
        BuildingOwner = ".BUILDINGOWNER.",
        BuildingOperator = ".BUILDINGOPERATOR.",
        MechanicalEngineer = ".MECHANICALENGINEER.",
        ElectricalEngineer = ".ELECTRICALENGINEER.",
        ProjectManager = ".PROJECTMANAGER.",
        FacilitiesManager = ".FACILITIESMANAGER.",
        CivilEngineer = ".CIVILENGINEER.",
        ComissionEngineer = ".COMMISSIONINGENGINEER.",
        Engineer = ".ENGINEER.",
        Owner = ".OWNER.",
        Consultant = ".CONSULTANT.",
        ConstructionManager = ".CONSTRUCTIONMANAGER.",
        FieldConstructionManager = ".FIELDCONSTRUCTIONMANAGER.",
        Reseller = ".RESELLER.",
        UserDefined = ".USERDEFINED.",
    }
    ChangeAction {
        NoChange = ".NOCHANGE.",
        Modified = ".MODIFIED.",
        Added = ".ADDED.",
        Deleted = ".DELETED.",
        ModifiedAdded = ".MODIFIEDADDED.",
        ModifiedDeleted = ".MODIFIEDDELETED.",
    }
    DoorOperationTypeEnum {
        SingleSwingLeft = ".SINGLE_SWING_LEFT.",
        SingleSwingRight = ".SINGLE_SWING_RIGHT.",
        DoubleDoorSingleSwing = ".DOUBLE_DOOR_SINGLE_SWING.",
        DoubleSwingLeft = ".DOUBLE_SWING_LEFT.",
        DoubleSwingRight = ".DOUBLE_SWING_RIGHT.",
        DoubleDoorDoubleSwing = ".DOUBLE_DOOR_DOUBLE_SWING.",
        DoubleDoorSingleSwingOppositeLeft = ".DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_LEFT.",
        DoubleDoorSingleSwingOppositeRight = ".DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_RIGHT.",
        SlidingToLeft = ".SLIDING_TO_LEFT.",
        SlidingToRight = ".SLIDING_TO_RIGHT.",
        DoubleDoorSliding = ".DOUBLE_DOOR_SLIDING.",
        FoldingToLeft = ".FOLDING_TO_LEFT.",
        FoldingToRight = ".FOLDING_TO_RIGHT.",
        DoubleDoorFolding = ".DOUBLE_DOOR_FOLDING.",
        Revolving = ".REVOLVING.",
        RollingUp = ".ROLLINGUP.",
        SwingFixedLeft = ".SWING_FIXED_LEFT.",
        SwingFixedRight = ".SWING_FIXED_RIGHT.",
        UserDefined = ".USERDEFINED.",
        NotDefined = ".NOTDEFINED.",
    }
    DoorTypeEnum {
        Door = ".DOOR.",
        Gate = ".GATE.",
        Trapdoor = ".TRAPDOOR.",
        UserDefined = ".USERDEFINED.",
        NotDefined = ".NOTDEFINED.",
    }
    OpeningElementTypeEnum {
        Opening = ".OPENING.",
        Recess = ".RECESS.",
        UserDefined = ".USERDEFINED.",
        NotDefined = ".NOTDEFINED.",
    }
    RoofTypeEnum {
        FlatRoof = ".FLAT_ROOF.",
        ShedRoof = ".SHED_ROOF.",
        GableRoof = ".GABLE_ROOF.",
        HipRoof = ".HIP_ROOF.",
        HippedGableRoof = ".HIPPED_GABLE_ROOF.",
        GambrelRoof = ".GAMBREL_ROOF.",
        MansardRoof = ".MANSARD_ROOF.",
        BarrelRoof = ".BARREL_ROOF.",
        RainbowRoof = ".RAINBOW_ROOF.",
        ButterflyRoof = ".BUTTERFLY_ROOF.",
        PavilionRoof = ".PAVILION_ROOF.",
        DomeRoof = ".DOME_ROOF.",
        UserDefined = ".USERDEFINED.",
        NotDefined = ".NOTDEFINED.",
    }
    ShadingDeviceTypeEnum {
        Awning = ".AWNING.",
        Parking = ".JALOUSIE.",
        Shutter = ".SHUTTER.",
        UserDefined = ".USERDEFINED.",
        NotDefined = ".NOTDEFINED.",
    }
    CompositionTypeEnum {
        Comples = ".COMPLEX.",
        Element = ".ELEMENT.",
        Partial = ".PARTIAL.",
    }
    SlabTypeEnum {
        Floor = ".FLOOR.",
        Roof = ".ROOF.",
        Landing = ".LANDING.",
        BaseSlab = ".BASESLAB.",
        UserDefined = ".USERDEFINED.",
        NotDefined = ".NOTDEFINED.",
    }
    SpaceTypeEnum {
        Space = ".SPACE.",
        Parking = ".PARKING.",
        Gfa = ".GFA.",
        Internal = ".INTERNAL.",
        External = ".EXTERNAL.",
        UserDefined = ".USERDEFINED.",
        NotDefined = ".NOTDEFINED.",
    }
    WallTypeEnum {
        Movable = ".MOVABLE.",
        Parapet = ".PARAPET.",
        Partitioning = ".PARTITIONING.",
        Plumbingwall = ".PLUMBINGWALL.",
        Shear = ".SHEAR.",
        Solidwall = ".SOLIDWALL.",
        Standard = ".STANDARD.",
        Polygonal = ".POLYGONAL.",
        Elementedwall = ".ELEMENTEDWALL.",
        Retainingwall = ".RETAININGWALL.",
        UserDefined = ".USERDEFINED.",
        NotDefined = ".NOTDEFINED.",
    }
    WindowPartitioningTypeEnum {
        SinglePanel = ".SINGLE_PANEL.",
        DoublePanelVertical = ".DOUBLE_PANEL_VERTICAL.",
        DoublePanelHorizontal = ".DOUBLE_PANEL_HORIZONTAL.",
        TriplePanelVertical = ".TRIPLE_PANEL_VERTICAL.",
        TriplePanelHorizontal = ".TRIPLE_PANEL_HORIZONTAL.",
        TriplePanelBottom = ".TRIPLE_PANEL_BOTTOM.",
        TriplePanelTop = ".TRIPLE_PANEL_TOP.",
        TriplePanelLeft = ".TRIPLE_PANEL_LEFT.",
        TriplePanelRight = ".TRIPLE_PANEL_RIGHT.",
        UserDefined = ".USERDEFINED.",
        NotDefined = ".NOTDEFINED.",
    }
    WindowTypeEnum {
        Window = ".WINDOW.",
        Skylight = ".SKYLIGHT.",
        Lightdome = ".LIGHTDOME.",
        UserDefined = ".USERDEFINED.",
        NotDefined = ".NOTDEFINED.",
    }
    DerivedUnitEnum {
        ANGULARVELOCITYUNIT = ".ANGULARVELOCITYUNIT.",
        AREADENSITYUNIT = ".AREADENSITYUNIT.",
        COMPOUNDPLANEANGLEUNIT = ".COMPOUNDPLANEANGLEUNIT.",
        DYNAMICVISCOSITYUNIT = ".DYNAMICVISCOSITYUNIT.",
        HEATFLUXDENSITYUNIT = ".HEATFLUXDENSITYUNIT.",
        INTEGERCOUNTRATEUNIT = ".INTEGERCOUNTRATEUNIT.",
        ISOTHERMALMOISTURECAPACITYUNIT = ".ISOTHERMALMOISTURECAPACITYUNIT.",
        KINEMATICVISCOSITYUNIT = ".KINEMATICVISCOSITYUNIT.",
        LINEARVELOCITYUNIT = ".LINEARVELOCITYUNIT.",
        MASSDENSITYUNIT = ".MASSDENSITYUNIT.",
        MASSFLOWRATEUNIT = ".MASSFLOWRATEUNIT.",
        MOISTUREDIFFUSIVITYUNIT = ".MOISTUREDIFFUSIVITYUNIT.",
        MOLECULARWEIGHTUNIT = ".MOLECULARWEIGHTUNIT.",
        SPECIFICHEATCAPACITYUNIT = ".SPECIFICHEATCAPACITYUNIT.",
        THERMALADMITTANCEUNIT = ".THERMALADMITTANCEUNIT.",
        THERMALCONDUCTANCEUNIT = ".THERMALCONDUCTANCEUNIT.",
        THERMALRESISTANCEUNIT = ".THERMALRESISTANCEUNIT.",
        THERMALTRANSMITTANCEUNIT = ".THERMALTRANSMITTANCEUNIT.",
        VAPORPERMEABILITYUNIT = ".VAPORPERMEABILITYUNIT.",
        VOLUMETRICFLOWRATEUNIT = ".VOLUMETRICFLOWRATEUNIT.",
        ROTATIONALFREQUENCYUNIT = ".ROTATIONALFREQUENCYUNIT.",
        TORQUEUNIT = ".TORQUEUNIT.",
        MOMENTOFINERTIAUNIT = ".MOMENTOFINERTIAUNIT.",
        LINEARMOMENTUNIT = ".LINEARMOMENTUNIT.",
        LINEARFORCEUNIT = ".LINEARFORCEUNIT.",
        PLANARFORCEUNIT = ".PLANARFORCEUNIT.",
        MODULUSOFELASTICITYUNIT = ".MODULUSOFELASTICITYUNIT.",
        SHEARMODULUSUNIT = ".SHEARMODULUSUNIT.",
        LINEARSTIFFNESSUNIT = ".LINEARSTIFFNESSUNIT.",
        ROTATIONALSTIFFNESSUNIT = ".ROTATIONALSTIFFNESSUNIT.",
        MODULUSOFSUBGRADEREACTIONUNIT = ".MODULUSOFSUBGRADEREACTIONUNIT.",
        ACCELERATIONUNIT = ".ACCELERATIONUNIT.",
        CURVATUREUNIT = ".CURVATUREUNIT.",
        IONCONCENTRATIONUNIT = ".IONCONCENTRATIONUNIT.",
        LUMINOUSINTENSITYDISTRIBUTIONUNIT = ".LUMINOUSINTENSITYDISTRIBUTIONUNIT.",
        MASSPERLENGTHUNIT = ".MASSPERLENGTHUNIT.",
        MODULUSOFLINEARSUBGRADEREACTIONUNIT = ".MODULUSOFLINEARSUBGRADEREACTIONUNIT.",
        MODULUSOFROTATIONALSUBGRADEREACTIONUNIT = ".MODULUSOFROTATIONALSUBGRADEREACTIONUNIT.",
        PHUNIT = ".PHUNIT.",
        ROTATIONALMASSUNIT = ".ROTATIONALMASSUNIT.",
        SECTIONAREAINTEGRALUNIT = ".SECTIONAREAINTEGRALUNIT.",
        SECTIONMODULUSUNIT = ".SECTIONMODULUSUNIT.",
        SOUNDPOWERLEVELUNIT = ".SOUNDPOWERLEVELUNIT.",
        SOUNDPOWERUNIT = ".SOUNDPOWERUNIT.",
        SOUNDPRESSURELEVELUNIT = ".SOUNDPRESSURELEVELUNIT.",
        SOUNDPRESSUREUNIT = ".SOUNDPRESSUREUNIT.",
        TEMPERATUREGRADIENTUNIT = ".TEMPERATUREGRADIENTUNIT.",
        TEMPERATURERATEOFCHANGEUNIT = ".TEMPERATURERATEOFCHANGEUNIT.",
        THERMALEXPANSIONCOEFFICIENTUNIT = ".THERMALEXPANSIONCOEFFICIENTUNIT.",
        WARPINGCONSTANTUNIT = ".WARPINGCONSTANTUNIT.",
        WARPINGMOMENTUNIT = ".WARPINGMOMENTUNIT.",
        USERDEFINED = ".USERDEFINED.",
    }
    IfcUnitName {
        Ampere = ".AMPERE.",
        Becquerel = ".BECQUEREL.",
        Candela = ".CANDELA.",
        Couloumb = ".COULOMB.",
        CubicMetre = ".CUBIC_METRE.",
        DegreeCelcius = ".DEGREE_CELSIUS.",
        Farad = ".FARAD.",
        Gram = ".GRAM.",
        Gray = ".GRAY.",
        Henry = ".HENRY.",
        Hertz = ".HERTZ.",
        Joule = ".JOULE.",
        Kelvin = ".KELVIN.",
        Lumen = ".LUMEN.",
        Lux = ".LUX.",
        Metre = ".METRE.",
        Mole = ".MOLE.",
        Newton = ".NEWTON.",
        Ohm = ".OHM.",
        Pascal = ".PASCAL.",
        Radian = ".RADIAN.",
        Second = ".SECOND.",
        Siemens = ".SIEMENS.",
        Sievert = ".SIEVERT.",
        SquareMetre = ".SQUARE_METRE.",
        Steradian = ".STERADIAN.",
        Tesla = ".TESLA.",
        Volt = ".VOLT.",
        Watt = ".WATT.",
        Weber = ".WEBER.",
    }
    IfcPrefix {
        Exa = ".EXA.",
        Peta = ".PETA.",
        Tera = ".TERA.",
        Giga = ".GIGA.",
        Mega = ".MEGA.",
        Kilo = ".KILO.",
        Hecto = ".HECTO.",
        Deca = ".DECA.",
        Deci = ".DECI.",
        Centi = ".CENTI.",
        Milli = ".MILLI.",
        Micro = ".MICRO.",
        Nano = ".NANO.",
        Pico = ".PICO.",
        Femto = ".FEMTO.",
        Atto = ".ATTO.",
    }
    IfcUnitEnum {
        AbsorbedDoseUnit = ".ABSORBEDDOSEUNIT.",
        AmountOfSubstanceUnit = ".AMOUNTOFSUBSTANCEUNIT.",
        AreaUnit = ".AREAUNIT.",
        DoseEquivalentUnit = ".DOSEEQUIVALENTUNIT.",
        ElectricCapacitanceUnit = ".ELECTRICCAPACITANCEUNIT.",
        ElectricChargeUnit = ".ELECTRICCHARGEUNIT.",
        ElectricConductanceUnit = ".ELECTRICCONDUCTANCEUNIT.",
        ElectricCurrentUnit = ".ELECTRICCURRENTUNIT.",
        ElectricResistanceUnit = ".ELECTRICRESISTANCEUNIT.",
        ElectricVoltageUnit = ".ELECTRICVOLTAGEUNIT.",
        EnergyUnit = ".ENERGYUNIT.",
        ForceUnit = ".FORCEUNIT.",
        FrequencyUnit = ".FREQUENCYUNIT.",
        IlluminanceUnit = ".ILLUMINANCEUNIT.",
        InductanceUnit = ".INDUCTANCEUNIT.",
        LengthUnit = ".LENGTHUNIT.",
        LuminousFluxUnit = ".LUMINOUSFLUXUNIT.",
        LuminousIntensityUnit = ".LUMINOUSINTENSITYUNIT.",
        MagneticFluxDensityUnit = ".MAGNETICFLUXDENSITYUNIT.",
        MagneticFluxUnit = ".MAGNETICFLUXUNIT.",
        MassUnit = ".MASSUNIT.",
        PlaneAngleUnit = ".PLANEANGLEUNIT.",
        PowerUnit = ".POWERUNIT.",
        PressureUnit = ".PRESSUREUNIT.",
        RadioActivityUnit = ".RADIOACTIVITYUNIT.",
        SolidAngleUnit = ".SOLIDANGLEUNIT.",
        ThermoDynamicTemperatureUnit = ".THERMODYNAMICTEMPERATUREUNIT.",
        TimeUnit = ".TIMEUNIT.",
        VolumeUnit = ".VOLUMEUNIT.",
        UserDefined = ".USERDEFINED.",
    }
}
pub const CONVERSION_NAMES: [&str; 32] = [
    "DEGREE",
    "INCH",
    "FOOT",
    "YARD",
    "MILE",
    "SQUARE INCH",
    "SQUARE FOOT",
    "SQUARE YARD",
    "ACRE",
    "SQUARE MILE",
    "CUBIC INCH",
    "CUBIC FOOT",
    "CUBIC YARD",
    "LITRE",
    "FLUID OUNCE UK",
    "FLUID OUNCE US",
    "PINT UK",
    "PINT US",
    "GALLON UK",
    "GALLON US",
    "OUNCE",
    "POUND",
    "TON UK",
    "TON US",
    "LBF",
    "KIP",
    "PSI",
    "KSI",
    "MINUTE",
    "HOUR",
    "DAY",
    "BTU",
];
