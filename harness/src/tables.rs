//! The value tables of the format's encoded enumerations, independent of the code under test.

pub const CHARSET: &[(u8, &str)] = &[
    (0, "Ansi"), (1, "Default"), (2, "Symbol"), (77, "Mac"), (128, "ShiftJis"), (129, "Hangul"),
    (130, "Johab"), (134, "Gb2312"), (136, "ChineseBig5"), (161, "Greek"), (162, "Turkish"),
    (163, "Vietnamese"), (177, "Hebrew"), (178, "Arabic"), (186, "Baltic"), (204, "Russian"),
    (222, "Thai"), (238, "EastEurope"), (255, "Oem"),
];
pub fn charset(v: u8) -> Option<&'static str> {
    CHARSET.iter().find(|c| c.0 == v).map(|c| c.1)
}
pub fn par_align(v: u8) -> &'static str {
    match v {
        0 => "Left",
        1 => "Center",
        2 => "Right",
        _ => "Unknown",
    }
}
pub fn action_type(v: u16) -> String {
    match v {
        0..=99 => format!("Numeric({v})"),
        100 => "DueToday".into(),
        101 => "DueTomorrow".into(),
        102 => "DueThisWeek".into(),
        103 => "DueNextWeek".into(),
        104 => "NoDueDate".into(),
        105 => "CustomDueDate".into(),
        _ => "Unknown".into(),
    }
}
pub fn item_status(v: u16) -> String {
    format!("{}{}{}", v & 1, v >> 1 & 1, v >> 2 & 1)
}
pub fn prop_status(v: u32) -> String {
    [0, 1, 2, 3, 6, 7, 8, 9, 10, 11].iter().map(|b| if v >> b & 1 == 1 { '1' } else { '0' }).collect()
}
pub fn file_type(v: Option<u32>) -> Option<&'static str> {
    match v {
        None => Some("Unknown"),
        Some(1) => Some("Audio"),
        Some(2) => Some("Video"),
        _ => None,
    }
}
pub const MATH: &[(u32, &str)] = &[
    (0, "SimpleText"), (10, "Accent"), (11, "Box"), (12, "BoxedFormula"), (13, "Brackets"),
    (14, "BracketsWithSeps"), (15, "EquationArray"), (16, "Fraction"), (17, "FunctionApply"),
    (18, "LeftSubSup"), (19, "LowerLimit"), (20, "Matrix"), (21, "Nary"), (22, "OpChar"),
    (23, "Overbar"), (24, "Phantom"), (25, "Radical"), (26, "SlashedFraction"), (27, "Stack"),
    (28, "StretchStack"), (29, "Subscript"), (30, "SubSup"), (31, "Superscript"),
    (32, "Underbar"), (33, "UpperLimit"), (0x90000000, "PlainText"),
];
/// Expected rendering of a layout alignment: Err for an undefined value, "-" when not applicable.
pub fn align(v: u32) -> Result<String, ()> {
    if v >> 31 & 1 == 1 {
        return Ok("-".into());
    }
    let h = match v & 7 {
        0 => "Unknown",
        1 => "Left",
        2 => "Center",
        3 => "Right",
        4 => "BiDiNormal",
        5 => "BiDiReverse",
        _ => return Err(()),
    };
    let hm = if v >> 3 & 1 == 1 { "Left" } else { "Right" };
    let ve = if v >> 16 & 1 == 1 { "Top" } else { "Bottom" };
    let vm = if v >> 19 & 1 == 1 { "Top" } else { "Bottom" };
    Ok(format!("{h}/{hm}/{ve}/{vm}"))
}
pub fn cref(v: u32) -> Result<String, ()> {
    let b = v.to_le_bytes();
    match b[3] {
        0xff => Ok("auto".into()),
        0 => Ok(format!("rgb({},{},{})", b[0], b[1], b[2])),
        _ => Err(()),
    }
}
pub fn color(v: u32) -> String {
    let b = v.to_le_bytes();
    crate::dump::s_rgba(255 - b[3], b[0], b[1], b[2])
}
const CHECKABLE: &[&str] = &[
    "GreenCheckBox", "YellowCheckBox", "BlueCheckBox", "GreenStarCheckBox", "YellowStarCheckBox",
    "BlueStarCheckBox", "GreenExclamationCheckBox", "YellowExclamationCheckBox",
    "BlueExclamationCheckBox", "GreenRightArrowCheckBox", "YellowRightArrowCheckBox",
    "BlueRightArrowCheckBox", "BlueCheckBox1", "GreenCheckBox1", "YellowCheckBox1",
    "BlueCheckBox2", "GreenCheckBox2", "YellowCheckBox2", "BlueCheckBox3", "GreenCheckBox3",
    "YellowCheckBox3", "FollowUpTodayFlag", "FollowUpTomorrowFlag", "FollowUpThisWeekFlag",
    "FollowUpNextWeekFlag", "NoFollowUpDateFlag", "BluePersonCheckBox", "YellowPersonCheckBox",
    "GreenPersonCheckBox", "BlueFlagCheckBox", "RedFlagCheckBox", "GreenFlagCheckBox",
];
pub fn checkable(shape: &str) -> bool {
    CHECKABLE.contains(&shape)
}
pub fn shape(v: u16) -> Option<&'static str> {
    SHAPE.iter().find(|s| s.0 == v).map(|s| s.1)
}
pub const SHAPE: &[(u16, &str)] = &[
    (0, "NoIcon"),    (1, "GreenCheckBox"),    (2, "YellowCheckBox"),    (3, "BlueCheckBox"),
    (4, "GreenStarCheckBox"),    (5, "YellowStarCheckBox"),    (6, "BlueStarCheckBox"),    (7, "GreenExclamationCheckBox"),
    (8, "YellowExclamationCheckBox"),    (9, "BlueExclamationCheckBox"),    (10, "GreenRightArrowCheckBox"),    (11, "YellowRightArrowCheckBox"),
    (12, "BlueRightArrowCheckBox"),    (13, "YellowStar"),    (14, "BlueFollowUpFlag"),    (15, "QuestionMark"),
    (16, "BlueRightArrow"),    (17, "HighPriority"),    (18, "ContactInformation"),    (19, "Meeting"),
    (20, "TimeSensitive"),    (21, "LightBulb"),    (22, "Pushpin"),    (23, "Home"),
    (24, "CommentBubble"),    (25, "SmilingFace"),    (26, "AwardRibbon"),    (27, "YellowKey"),
    (28, "BlueCheckBox1"),    (29, "BlueCircle1"),    (30, "BlueCheckBox2"),    (31, "BlueCircle2"),
    (32, "BlueCheckBox3"),    (33, "BlueCircle3"),    (34, "BlueEightPointStar"),    (35, "BlueCheckMark"),
    (36, "BlueCircle"),    (37, "BlueDownArrow"),    (38, "BlueLeftArrow"),    (39, "BlueSolidTarget"),
    (40, "BlueStar"),    (41, "BlueSun"),    (42, "BlueTarget"),    (43, "BlueTriangle"),
    (44, "BlueUmbrella"),    (45, "BlueUpArrow"),    (46, "BlueXWithDots"),    (47, "BlueX"),
    (48, "GreenCheckBox1"),    (49, "GreenCircle1"),    (50, "GreenCheckBox2"),    (51, "GreenCircle2"),
    (52, "GreenCheckBox3"),    (53, "GreenCircle3"),    (54, "GreenEightPointStar"),    (55, "GreenCheckMark"),
    (56, "GreenCircle"),    (57, "GreenDownArrow"),    (58, "GreenLeftArrow"),    (59, "GreenRightArrow"),
    (60, "GreenSolidArrow"),    (61, "GreenStar"),    (62, "GreenSun"),    (63, "GreenTarget"),
    (64, "GreenTriangle"),    (65, "GreenUmbrella"),    (66, "GreenUpArrow"),    (67, "GreenXWithDots"),
    (68, "GreenX"),    (69, "YellowCheckBox1"),    (70, "YellowCircle1"),    (71, "YellowCheckBox2"),
    (72, "YellowCircle2"),    (73, "YellowCheckBox3"),    (74, "YellowCircle3"),    (75, "YellowEightPointStar"),
    (76, "YellowCheckMark"),    (77, "YellowCircle"),    (78, "YellowDownArrow"),    (79, "YellowLeftArrow"),
    (80, "YellowRightArrow"),    (81, "YellowSolidTarget"),    (82, "YellowSun"),    (83, "YellowTarget"),
    (84, "YellowTriangle"),    (85, "YellowUmbrella"),    (86, "YellowUpArrow"),    (87, "YellowXWithDots"),
    (88, "YellowX"),    (89, "FollowUpTodayFlag"),    (90, "FollowUpTomorrowFlag"),    (91, "FollowUpThisWeekFlag"),
    (92, "FollowUpNextWeekFlag"),    (93, "NoFollowUpDateFlag"),    (94, "BluePersonCheckBox"),    (95, "YellowPersonCheckBox"),
    (96, "GreenPersonCheckBox"),    (97, "BlueFlagCheckBox"),    (98, "RedFlagCheckBox"),    (99, "GreenFlagCheckBox"),
    (100, "RedSquare"),    (101, "YellowSquare"),    (102, "BlueSquare"),    (103, "GreenSquare"),
    (104, "OrangeSquare"),    (105, "PinkSquare"),    (106, "EMailMessage"),    (107, "ClosedEnvelope"),
    (108, "OpenEnvelope"),    (109, "MobilePhone"),    (110, "TelephoneWithClock"),    (111, "QuestionBalloon"),
    (112, "PaperClip"),    (113, "FrowningFace"),    (114, "InstantMessagingContactPerson"),    (115, "PersonWithExclamationMark"),
    (116, "TwoPeople"),    (117, "ReminderBell"),    (118, "Contact"),    (119, "RoseOnAStem"),
    (120, "CalendarDateWithClock"),    (121, "MusicalNote"),    (122, "MovieClip"),    (123, "QuotationMark"),
    (124, "Globe"),    (125, "HyperlinkGlobe"),    (126, "Laptop"),    (127, "Plane"),
    (128, "Car"),    (129, "Binoculars"),    (130, "PresentationSlide"),    (131, "Padlock"),
    (132, "OpenBook"),    (133, "NotebookWithClock"),    (134, "BlankPaperWithLines"),    (135, "Research"),
    (136, "Pen"),    (137, "DollarSign"),    (138, "CoinsWithAWindowBackdrop"),    (139, "ScheduledTask"),
    (140, "LightningBolt"),    (141, "Cloud"),    (142, "Heart"),    (143, "Sunflower"),

];
