//! Independent model of the `*SETTING.DAT` format: layouts, option bytes, labels, defaults and
//! checksums are written down here from the published format description and the files rekordbox
//! wrote, not taken from the library.
use crate::rng::Rng;
use rekordcrate::setting::*;

pub struct Opt {
    pub byte: u8,
    pub variant: &'static str,
    pub label: &'static str,
    pub set: fn(&mut SettingData),
}
pub struct Field {
    pub name: &'static str,
    /// Label in the listing of a device export.
    pub listing: &'static str,
    pub off: usize,
    pub default: u8,
    pub opts: Vec<Opt>,
    /// Debug name and label of the field in a settings value.
    pub get: fn(&SettingData) -> (String, String),
}
impl Field {
    pub fn opt(&self, byte: u8) -> Option<&Opt> {
        self.opts.iter().find(|o| o.byte == byte)
    }
}
pub struct Kind {
    pub name: &'static str,
    pub file: &'static str,
    pub typ: SettingType,
    pub size: usize,
    pub brand: &'static str,
    pub version: &'static str,
    pub base: Vec<u8>,
    /// Bytes outside the options that may hold anything.
    pub free: Vec<usize>,
    pub fields: Vec<Field>,
    pub default: fn() -> Setting,
}

macro_rules! field {
    ($k:ident, $f:ident : $t:ident, $listing:literal, $off:literal, $def:literal, { $($v:ident = $b:literal $l:literal),* $(,)? }) => {
        Field {
            name: stringify!($f), listing: $listing, off: $off, default: $def,
            opts: vec![$(Opt { byte: $b, variant: stringify!($v), label: $l, set: |d| {
                if let SettingData::$k(x) = d { x.$f = $t::$v } else { unreachable!() }
            } }),*],
            get: |d| if let SettingData::$k(x) = d { (format!("{:?}", x.$f), x.$f.to_string()) } else { unreachable!() },
        }
    };
}

fn base(size: usize, parts: &[(usize, &[u8])]) -> Vec<u8> {
    let mut b = vec![0; size];
    for (o, p) in parts {
        b[*o..*o + p.len()].copy_from_slice(p);
    }
    b
}

pub fn kinds() -> Vec<Kind> {
    let mut v = vec![
        Kind {
            name: "DevSetting", file: "DEVSETTING.DAT", typ: SettingType::DevSetting, size: 32,
            brand: "PIONEER DJ", version: "6.6.1",
            base: base(32, &[(0, &[0x78, 0x56, 0x34, 0x12, 1, 0, 0, 0, 1]), (11, &[1])]),
            free: vec![],
            fields: vec![
                field!(DevSetting, overview_waveform_type: OverviewWaveformType, "Overview Waveform Type", 9, 1,
                    { HalfWaveform = 1 "Half Waveform", FullWaveform = 2 "Full Waveform" }),
                field!(DevSetting, waveform_color: WaveformColor, "Waveform Color", 10, 1,
                    { Blue = 1 "Blue", Rgb = 3 "RGB", TriBand = 4 "3Band" }),
                field!(DevSetting, key_display_format: KeyDisplayFormat, "Key Display Format", 12, 1,
                    { Classic = 1 "Classic", Alphanumeric = 2 "Alphanumeric" }),
                field!(DevSetting, waveform_current_position: WaveformCurrentPosition, "Waveform Current Position", 13, 1,
                    { Center = 1 "Center", Left = 2 "Left" }),
            ],
            default: Setting::default_devsetting,
        },
        Kind {
            name: "DJMMySetting", file: "DJMMYSETTING.DAT", typ: SettingType::DJMMySetting, size: 52,
            brand: "PioneerDJ", version: "1.000",
            base: base(52, &[(0, &[0x78, 0x56, 0x34, 0x12, 1, 0, 0, 0, 0x20, 0, 0, 0])]),
            free: (0..12).collect(),
            fields: vec![
                field!(DJMMySetting, channel_fader_curve: ChannelFaderCurve, "Channel Fader Curve", 12, 0x81,
                    { SteepTop = 0x80 "Steep Top", Linear = 0x81 "Linear", SteepBottom = 0x82 "Steep Bottom" }),
                field!(DJMMySetting, crossfader_curve: CrossfaderCurve, "Crossfader Curve", 13, 0x82,
                    { ConstantPower = 0x80 "Constant Power", SlowCut = 0x81 "Slow Cut", FastCut = 0x82 "Fast Cut" }),
                field!(DJMMySetting, headphones_pre_eq: HeadphonesPreEQ, "Headphones Pre Eq", 14, 0x80,
                    { PostEQ = 0x80 "Post EQ", PreEQ = 0x81 "Pre EQ" }),
                field!(DJMMySetting, headphones_mono_split: HeadphonesMonoSplit, "Headphones Mono Split", 15, 0x80,
                    { Stereo = 0x80 "Stereo", MonoSplit = 0x81 "Mono Split" }),
                field!(DJMMySetting, beat_fx_quantize: BeatFXQuantize, "Beat FX Quantize", 16, 0x81,
                    { Off = 0x80 "Off", On = 0x81 "On" }),
                field!(DJMMySetting, mic_low_cut: MicLowCut, "Mic Low Cut", 17, 0x81,
                    { Off = 0x80 "Off", On = 0x81 "On" }),
                field!(DJMMySetting, talk_over_mode: TalkOverMode, "Talk Over Mode", 18, 0x80,
                    { Advanced = 0x80 "Advanced", Normal = 0x81 "Normal" }),
                field!(DJMMySetting, talk_over_level: TalkOverLevel, "Talk Over Level", 19, 0x81,
                    { Minus24dB = 0x80 "-24dB", Minus18dB = 0x81 "-18dB", Minus12dB = 0x82 "-12dB", Minus6dB = 0x83 "-6dB" }),
                field!(DJMMySetting, midi_channel: MidiChannel, "MIDI Channel", 20, 0x80,
                    { One = 0x80 "1", Two = 0x81 "2", Three = 0x82 "3", Four = 0x83 "4", Five = 0x84 "5", Six = 0x85 "6",
                      Seven = 0x86 "7", Eight = 0x87 "8", Nine = 0x88 "9", Ten = 0x89 "10", Eleven = 0x8a "11",
                      Twelve = 0x8b "12", Thirteen = 0x8c "13", Fourteen = 0x8d "14", Fifteen = 0x8e "15", Sixteen = 0x8f "16" }),
                field!(DJMMySetting, midi_button_type: MidiButtonType, "MIDI Button Type", 21, 0x80,
                    { Toggle = 0x80 "Toggle", Trigger = 0x81 "Trigger" }),
                field!(DJMMySetting, display_brightness: MixerDisplayBrightness, "Display Brightness", 22, 0x85,
                    { White = 0x80 "White", One = 0x81 "1", Two = 0x82 "2", Three = 0x83 "3", Four = 0x84 "4", Five = 0x85 "5" }),
                field!(DJMMySetting, indicator_brightness: MixerIndicatorBrightness, "Indicator Brightness", 23, 0x82,
                    { One = 0x80 "1", Two = 0x81 "2", Three = 0x82 "3" }),
                field!(DJMMySetting, channel_fader_curve_long_fader: ChannelFaderCurveLongFader, "Channel Fader Curve Long Fader", 24, 0x80,
                    { Exponential = 0x80 "Exponential", Smooth = 0x81 "Smooth", Linear = 0x82 "Linear" }),
            ],
            default: Setting::default_djmmysetting,
        },
        Kind {
            name: "MySetting", file: "MYSETTING.DAT", typ: SettingType::MySetting, size: 40,
            brand: "PIONEER", version: "0.001",
            base: base(40, &[(0, &[0x78, 0x56, 0x34, 0x12, 2, 0, 0, 0]), (13, &[1]), (17, &[1, 1, 1])]),
            free: vec![0, 1, 2, 3, 4, 5, 6, 7, 13, 17, 18, 19],
            fields: vec![
                field!(MySetting, on_air_display: OnAirDisplay, "On Air Display", 8, 0x81, { Off = 0x80 "Off", On = 0x81 "On" }),
                field!(MySetting, lcd_brightness: LCDBrightness, "LCD Brightness", 9, 0x83,
                    { One = 0x81 "1", Two = 0x82 "2", Three = 0x83 "3", Four = 0x84 "4", Five = 0x85 "5" }),
                field!(MySetting, quantize: Quantize, "Quantize", 10, 0x81, { Off = 0x80 "Off", On = 0x81 "On" }),
                field!(MySetting, auto_cue_level: AutoCueLevel, "Auto Cue Level", 11, 0x88,
                    { Minus36dB = 0x80 "-36dB", Minus42dB = 0x81 "-42dB", Minus48dB = 0x82 "-48dB", Minus54dB = 0x83 "-54dB",
                      Minus60dB = 0x84 "-60dB", Minus66dB = 0x85 "-66dB", Minus72dB = 0x86 "-72dB", Minus78dB = 0x87 "-78dB",
                      Memory = 0x88 "Memory" }),
                field!(MySetting, language: Language, "Language", 12, 0x81,
                    { English = 0x81 "English", French = 0x82 "Français", German = 0x83 "Deutsch", Italian = 0x84 "Italiano",
                      Dutch = 0x85 "Nederlands", Spanish = 0x86 "Español", Russian = 0x87 "Русский", Korean = 0x88 "한국어",
                      ChineseSimplified = 0x89 "简体中文", ChineseTraditional = 0x8a "繁體中文", Japanese = 0x8b "日本語",
                      Portuguese = 0x8c "Português", Swedish = 0x8d "Svenska", Czech = 0x8e "Čeština", Hungarian = 0x8f "Magyar",
                      Danish = 0x90 "Dansk", Greek = 0x91 "Ελληνικά", Turkish = 0x92 "Türkçe" }),
                field!(MySetting, jog_ring_brightness: JogRingBrightness, "Jog Ring Brightness", 14, 0x82,
                    { Off = 0x80 "Off", Dark = 0x81 "1 (Dark)", Bright = 0x82 "2 (Bright)" }),
                field!(MySetting, jog_ring_indicator: JogRingIndicator, "Jog Ring Indicator", 15, 0x81, { Off = 0x80 "Off", On = 0x81 "On" }),
                field!(MySetting, slip_flashing: SlipFlashing, "Slip Flashing", 16, 0x81, { Off = 0x80 "Off", On = 0x81 "On" }),
                field!(MySetting, disc_slot_illumination: DiscSlotIllumination, "Disc Slot Illumination", 20, 0x82,
                    { Off = 0x80 "Off", Dark = 0x81 "1 (Dark)", Bright = 0x82 "2 (Bright)" }),
                field!(MySetting, eject_lock: EjectLock, "Eject Lock", 21, 0x80, { Unlock = 0x80 "Unlock", Lock = 0x81 "Lock" }),
                field!(MySetting, sync: Sync, "Sync", 22, 0x80, { Off = 0x80 "Off", On = 0x81 "On" }),
                field!(MySetting, play_mode: PlayMode, "Play Mode", 23, 0x81,
                    { Continue = 0x80 "Continue / On", Single = 0x81 "Single / Off" }),
                field!(MySetting, quantize_beat_value: QuantizeBeatValue, "Quantize Beat Value", 24, 0x80,
                    { FullBeat = 0x80 "1 Beat", HalfBeat = 0x81 "1/2 Beat", QuarterBeat = 0x82 "1/4 Beat", EighthBeat = 0x83 "1/8 Beat" }),
                field!(MySetting, hotcue_autoload: HotCueAutoLoad, "Hotcue Autoload", 25, 0x81,
                    { Off = 0x80 "Off", On = 0x81 "On", RekordboxSetting = 0x82 "rekordbox SETTING" }),
                field!(MySetting, hotcue_color: HotCueColor, "Hotcue Color", 26, 0x80, { Off = 0x80 "Off", On = 0x81 "On" }),
                field!(MySetting, needle_lock: NeedleLock, "Needle Lock", 29, 0x81, { Unlock = 0x80 "Unlock", Lock = 0x81 "Lock" }),
                field!(MySetting, time_mode: TimeMode, "Time Mode", 32, 0x81, { Elapsed = 0x80 "Elapsed", Remain = 0x81 "Remain" }),
                field!(MySetting, jog_mode: JogMode, "Jog Mode", 33, 0x81, { CDJ = 0x80 "CDJ", Vinyl = 0x81 "Vinyl" }),
                field!(MySetting, auto_cue: AutoCue, "Auto Cue", 34, 0x81, { Off = 0x80 "Off", On = 0x81 "On" }),
                field!(MySetting, master_tempo: MasterTempo, "Master Tempo", 35, 0x80, { Off = 0x80 "Off", On = 0x81 "On" }),
                field!(MySetting, tempo_range: TempoRange, "Tempo Range", 36, 0x81,
                    { SixPercent = 0x80 "±6%", TenPercent = 0x81 "±10%", SixteenPercent = 0x82 "±16%", Wide = 0x83 "Wide" }),
                field!(MySetting, phase_meter: PhaseMeter, "Phase Meter", 37, 0x80, { Type1 = 0x80 "Type 1", Type2 = 0x81 "Type 2" }),
            ],
            default: Setting::default_mysetting,
        },
        Kind {
            name: "MySetting2", file: "MYSETTING2.DAT", typ: SettingType::MySetting2, size: 40,
            brand: "PIONEER", version: "0.001",
            base: base(40, &[(11, &[0x81])]),
            free: vec![11],
            fields: vec![
                field!(MySetting2, vinyl_speed_adjust: VinylSpeedAdjust, "Vinyl Speed Adjust", 0, 0x81,
                    { TouchRelease = 0x80 "Touch & Release", Touch = 0x81 "Touch", Release = 0x82 "Release" }),
                field!(MySetting2, jog_display_mode: JogDisplayMode, "Jog Display Mode", 1, 0x80,
                    { Auto = 0x80 "Auto", Info = 0x81 "Info", Simple = 0x82 "Simple", Artwork = 0x83 "Artwork" }),
                field!(MySetting2, pad_button_brightness: PadButtonBrightness, "Pad Button Brightness", 2, 0x83,
                    { One = 0x81 "1", Two = 0x82 "2", Three = 0x83 "3", Four = 0x84 "4" }),
                field!(MySetting2, jog_lcd_brightness: JogLCDBrightness, "Jog LCD Brightness", 3, 0x83,
                    { One = 0x81 "1", Two = 0x82 "2", Three = 0x83 "3", Four = 0x84 "4", Five = 0x85 "5" }),
                field!(MySetting2, waveform_divisions: WaveformDivisions, "Waveform Divisions", 4, 0x81,
                    { TimeScale = 0x80 "Time Scale", Phrase = 0x81 "Phrase" }),
                field!(MySetting2, waveform: Waveform, "Waveform", 10, 0x80,
                    { Waveform = 0x80 "Waveform", PhaseMeter = 0x81 "Phase Meter" }),
                field!(MySetting2, beat_jump_beat_value: BeatJumpBeatValue, "Beat Jump Beat Value", 12, 0x85,
                    { HalfBeat = 0x80 "1/2 Beat", OneBeat = 0x81 "1 Beat", TwoBeat = 0x82 "2 Beat", FourBeat = 0x83 "4 Beat",
                      EightBeat = 0x84 "8 Beat", SixteenBeat = 0x85 "16 Beat", ThirtytwoBeat = 0x86 "32 Beat", SixtyfourBeat = 0x87 "64 Beat" }),
            ],
            default: Setting::default_mysetting2,
        },
    ];
    for k in &mut v {
        for f in &k.fields {
            k.base[f.off] = f.default;
        }
    }
    v
}

/// Order of the options in the listing of a device export.
pub const LISTING_ORDER: [&str; 4] = ["MySetting", "MySetting2", "DJMMySetting", "DevSetting"];

/// CRC16/XMODEM: polynomial 0x1021, initial value 0, no reflection, bit by bit.
pub fn crc(data: &[u8]) -> u16 {
    let mut c = 0u16;
    for &b in data {
        for i in (0..8).rev() {
            let top = (c >> 15) as u8 ^ (b >> i & 1);
            c <<= 1;
            if top == 1 {
                c ^= 0x1021;
            }
        }
    }
    c
}

/// A settings file.
#[derive(Clone, Debug)]
pub struct FileM {
    pub kind: usize,
    pub brand: Vec<u8>,
    pub software: Vec<u8>,
    pub version: Vec<u8>,
    pub data: Vec<u8>,
}
impl FileM {
    pub fn default(k: &[Kind], kind: usize) -> Self {
        FileM {
            kind,
            brand: k[kind].brand.into(),
            software: b"rekordbox".to_vec(),
            version: k[kind].version.into(),
            data: k[kind].base.clone(),
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut b = 0x60u32.to_le_bytes().to_vec();
        for s in [&self.brand, &self.software, &self.version] {
            assert!(s.len() < 0x20);
            b.extend(s);
            b.resize((b.len() - 4).div_ceil(0x20) * 0x20 + 4, 0);
            if s.is_empty() {
                b.extend([0; 0x20]);
            }
        }
        assert_eq!(b.len(), 100);
        b.extend((self.data.len() as u32).to_le_bytes());
        b.extend(&self.data);
        let c = crc(if self.kind == 1 { &b } else { &self.data });
        b.extend(c.to_le_bytes());
        b.extend([0, 0]);
        b
    }
    /// Set a random option for some of the fields and anything in the free bytes.
    pub fn randomize(&mut self, r: &mut Rng, k: &[Kind]) {
        let k = &k[self.kind];
        let p = r.range(1, 4);
        for f in &k.fields {
            if r.chance(p, 4) {
                self.data[f.off] = r.pick(&f.opts).byte;
            }
        }
        if r.chance(1, 2) {
            for &o in &k.free {
                self.data[o] = r.u8();
            }
        }
        for s in [&mut self.brand, &mut self.software, &mut self.version] {
            if r.chance(1, 3) {
                *s = gen_string(r, 31);
            }
        }
    }
}
/// A string without NUL bytes of up to `max` bytes.
pub fn gen_string(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(4) {
        0 => max,
        1 => r.below(2),
        _ => r.range(0, max),
    };
    let bin = r.chance(1, 4);
    (0..n)
        .map(|_| if bin { r.range(1, 255) as u8 } else { r.range(0x20, 0x7e) as u8 })
        .collect()
}
