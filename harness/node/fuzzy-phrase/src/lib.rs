//! A stand-in for fuzzy-phrase: phrases in a file, compared word by word.
pub mod glue {
    use failure::{err_msg, Error};
    use serde::{Deserialize, Deserializer, Serialize};
    use std::path::{Path, PathBuf};

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum EndingType {
        NonPrefix = 0,
        AnyPrefix = 1,
        WordBoundaryPrefix = 2,
    }
    impl<'de> Deserialize<'de> for EndingType {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<EndingType, D::Error> {
            match u8::deserialize(d)? {
                0 => Ok(EndingType::NonPrefix),
                1 => Ok(EndingType::AnyPrefix),
                2 => Ok(EndingType::WordBoundaryPrefix),
                n => Err(serde::de::Error::custom(format!("no ending type: {}", n))),
            }
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct WordReplacement {
        pub from: String,
        pub to: String,
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize)]
    pub struct FuzzyMatchResult {
        pub phrase: Vec<String>,
        pub edit_distance: u8,
        pub phrase_id_range: (u32, u32),
        pub ending_type: u8,
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize)]
    pub struct FuzzyWindowResult {
        pub phrase: Vec<String>,
        pub edit_distance: u8,
        pub start_position: usize,
        pub ending_type: u8,
        pub phrase_id_range: (u32, u32),
    }
    #[derive(Debug, Clone, Copy)]
    pub struct PhraseId(u64);
    impl PhraseId {
        pub fn value(&self) -> u64 {
            self.0
        }
    }
    pub struct PrefixBin {
        pub first: PhraseId,
        pub last: PhraseId,
        pub size: usize,
    }

    #[derive(Serialize, Deserialize)]
    struct Content {
        phrases: Vec<Vec<String>>,
        word_replacements: Vec<WordReplacement>,
    }
    fn replaced<T: AsRef<str>>(words: &[T], by: &[WordReplacement]) -> Vec<String> {
        words
            .iter()
            .map(|w| by.iter().find(|r| r.from == w.as_ref()).map_or(w.as_ref().to_string(), |r| r.to.clone()))
            .collect()
    }

    pub struct FuzzyPhraseSetBuilder {
        dir: PathBuf,
        phrases: Vec<Vec<String>>,
        numbers: std::collections::HashMap<Vec<String>, u32>,
        replacements: Vec<WordReplacement>,
    }
    impl FuzzyPhraseSetBuilder {
        pub fn new<P: AsRef<Path>>(path: P) -> Result<Self, Error> {
            std::fs::create_dir_all(path.as_ref())?;
            Ok(FuzzyPhraseSetBuilder { dir: path.as_ref().to_path_buf(), phrases: vec![], numbers: Default::default(), replacements: vec![] })
        }
        pub fn load_word_replacements(&mut self, r: Vec<WordReplacement>) -> Result<(), Error> {
            self.replacements = r;
            Ok(())
        }
        /// the number for now; what it becomes is told by `finish`
        pub fn insert<T: AsRef<str>>(&mut self, words: &[T]) -> Result<u32, Error> {
            if words.is_empty() {
                return Err(err_msg("a phrase has words"));
            }
            let p = replaced(words, &self.replacements);
            if let Some(i) = self.numbers.get(&p) {
                return Ok(*i);
            }
            let i = self.phrases.len() as u32;
            self.numbers.insert(p.clone(), i);
            self.phrases.push(p);
            Ok(i)
        }
        pub fn finish(self) -> Result<Vec<u32>, Error> {
            let mut sorted = self.phrases.clone();
            sorted.sort();
            let map = self.phrases.iter().map(|p| sorted.binary_search(p).unwrap() as u32).collect();
            let text = serde_json::to_string(&Content { phrases: sorted, word_replacements: self.replacements })?;
            std::fs::write(self.dir.join("metadata.json"), text)?;
            Ok(map)
        }
    }

    pub struct FuzzyPhraseSet {
        phrases: Vec<Vec<String>>,
        replacements: Vec<WordReplacement>,
    }
    /// a word with a digit stands for itself only
    fn edits(a: &str, b: &str) -> usize {
        if a != b && b.contains(|c: char| c.is_ascii_digit()) {
            return 255;
        }
        let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
        let mut row: Vec<usize> = (0..=b.len()).collect();
        for i in 1..=a.len() {
            let mut diag = row[0];
            row[0] = i;
            for j in 1..=b.len() {
                let next = (diag + (a[i - 1] != b[j - 1]) as usize).min(row[j] + 1).min(row[j - 1] + 1);
                diag = row[j];
                row[j] = next;
            }
        }
        row[b.len()]
    }
    impl FuzzyPhraseSet {
        pub fn from_path<P: AsRef<Path>>(path: P) -> Result<Self, Error> {
            let text = std::fs::read_to_string(path.as_ref().join("metadata.json"))?;
            let c: Content = serde_json::from_str(&text)?;
            Ok(FuzzyPhraseSet { phrases: c.phrases, replacements: c.word_replacements })
        }
        fn fits(p: &[String], q: &[String], ending: EndingType) -> bool {
            match ending {
                EndingType::NonPrefix => p == q,
                EndingType::WordBoundaryPrefix => p.starts_with(q),
                EndingType::AnyPrefix => {
                    p.len() >= q.len()
                        && p[..q.len() - 1] == q[..q.len() - 1]
                        && p[q.len() - 1].starts_with(q[q.len() - 1].as_str())
                }
            }
        }
        fn range(&self, q: &[String], ending: EndingType) -> Option<(u32, u32)> {
            let first = self.phrases.iter().position(|p| Self::fits(p, q, ending))?;
            let last = self.phrases.iter().rposition(|p| Self::fits(p, q, ending))?;
            Some((first as u32, last as u32))
        }
        pub fn contains<T: AsRef<str>>(&self, words: &[T], ending: EndingType) -> Result<bool, Error> {
            let q = replaced(words, &self.replacements);
            Ok(!q.is_empty() && self.range(&q, ending).is_some())
        }
        pub fn fuzzy_match<T: AsRef<str>>(&self, words: &[T], word: u8, phrase: u8, ending: EndingType) -> Result<Vec<FuzzyMatchResult>, Error> {
            let q = replaced(words, &self.replacements);
            if q.is_empty() {
                return Err(err_msg("a phrase has words"));
            }
            let mut out: Vec<FuzzyMatchResult> = Vec::new();
            for p in &self.phrases {
                let long_enough = if ending == EndingType::NonPrefix { p.len() == q.len() } else { p.len() >= q.len() };
                if !long_enough {
                    continue;
                }
                let mut found: Vec<String> = p[..q.len()].to_vec();
                let mut d: Vec<usize> = found.iter().zip(&q).map(|(a, b)| edits(a, b)).collect();
                let mut kind = if ending == EndingType::AnyPrefix { EndingType::WordBoundaryPrefix } else { ending };
                if ending == EndingType::AnyPrefix && found.last().unwrap().starts_with(q.last().unwrap().as_str()) {
                    *found.last_mut().unwrap() = q.last().unwrap().clone();
                    *d.last_mut().unwrap() = 0;
                    kind = EndingType::AnyPrefix;
                }
                if d.iter().all(|n| *n <= word as usize) && d.iter().sum::<usize>() <= phrase as usize {
                    if let Some(range) = self.range(&found, kind) {
                        let r = FuzzyMatchResult {
                            phrase: found,
                            edit_distance: d.iter().sum::<usize>() as u8,
                            phrase_id_range: range,
                            ending_type: kind as u8,
                        };
                        if !out.contains(&r) {
                            out.push(r);
                        }
                    }
                }
            }
            Ok(out)
        }
        pub fn fuzzy_match_windows<T: AsRef<str>>(&self, words: &[T], word: u8, phrase: u8, ending: EndingType) -> Result<Vec<FuzzyWindowResult>, Error> {
            let words: Vec<&str> = words.iter().map(|w| w.as_ref()).collect();
            let mut out = Vec::new();
            for i in 0..words.len() {
                for j in i + 1..=words.len() {
                    let e = if j == words.len() { ending } else { EndingType::NonPrefix };
                    for m in self.fuzzy_match(&words[i..j], word, phrase, e)? {
                        out.push(FuzzyWindowResult {
                            phrase: m.phrase,
                            edit_distance: m.edit_distance,
                            start_position: i,
                            ending_type: m.ending_type,
                            phrase_id_range: m.phrase_id_range,
                        });
                    }
                }
            }
            Ok(out)
        }
        pub fn fuzzy_match_multi<T: AsRef<str>>(&self, phrases: &[(Vec<T>, EndingType)], word: u8, phrase: u8) -> Result<Vec<Vec<FuzzyMatchResult>>, Error> {
            phrases.iter().map(|(p, e)| self.fuzzy_match(p, word, phrase, *e)).collect()
        }
        pub fn get_by_phrase_id(&self, id: u32) -> Result<Option<Vec<String>>, Error> {
            Ok(self.phrases.get(id as usize).cloned())
        }
        /// runs of phrases with a common beginning, none longer than `most` unless it is one phrase
        pub fn get_prefix_bins(&self, most: usize) -> Result<Vec<PrefixBin>, Error> {
            if most == 0 {
                return Err(err_msg("bins hold something"));
            }
            Ok((0..self.phrases.len())
                .step_by(most)
                .map(|i| {
                    let last = (i + most).min(self.phrases.len()) - 1;
                    PrefixBin { first: PhraseId(i as u64), last: PhraseId(last as u64), size: last + 1 - i }
                })
                .collect())
        }
    }
}
