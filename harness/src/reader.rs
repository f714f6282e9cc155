//! A small reader of grammar files, used only when the front ends of the library fail on a file. It is a driver, not an
//! oracle: it lets the checks about grammars and parsers go on while the library's own front end is broken.
use lapex_input::{
    EntryRule, LapexInputParser, LapexParsingError, ProductionPattern, ProductionRule, RuleSet, SourcePos,
    SourceSpan, Spanned, TokenPattern, TokenRule,
};

struct P<'a> {
    src: &'a str,
    pos: usize,
}

type R<T> = Result<T, LapexParsingError>;

impl<'a> P<'a> {
    fn bad<T>(&self) -> R<T> {
        Err(LapexParsingError::IncompleteParsing(self.src[self.pos..].chars().take(20).collect()))
    }
    fn ws(&mut self) {
        let rest = &self.src[self.pos..];
        self.pos += rest.len() - rest.trim_start_matches([' ', '\t', '\n', '\r']).len();
    }
    fn peek(&self) -> Option<char> {
        self.src[self.pos..].chars().next()
    }
    fn eat(&mut self, c: char) -> bool {
        self.ws();
        if self.peek() == Some(c) {
            self.pos += c.len_utf8();
            return true;
        }
        false
    }
    fn need(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            self.bad()
        }
    }
    fn word(&mut self) -> R<&'a str> {
        self.ws();
        let rest = &self.src[self.pos..];
        let n = rest.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).unwrap_or(rest.len());
        if n == 0 {
            return self.bad();
        }
        self.pos += n;
        Ok(&rest[..n])
    }
    fn at(&self, pos: usize) -> SourcePos {
        let line = self.src[..pos].matches('\n').count() as u32 + 1;
        let col = self.src[self.src[..pos].rfind('\n').map(|i| i + 1).unwrap_or(0)..pos].chars().count() as u32 + 1;
        SourcePos { line, col }
    }
    fn spanned<T>(&self, from: usize, inner: T) -> Spanned<T> {
        Spanned::new(SourceSpan { start: self.at(from), end: self.at(self.pos) }, inner)
    }
    fn alternatives(&mut self) -> R<ProductionPattern<'a>> {
        if self.eat('!') {
            return Ok(ProductionPattern::Epsilon);
        }
        let mut es = vec![self.sequence()?];
        while self.eat('|') {
            es.push(self.sequence()?);
        }
        Ok(if es.len() == 1 { es.remove(0) } else { ProductionPattern::Alternative { elements: es } })
    }
    fn sequence(&mut self) -> R<ProductionPattern<'a>> {
        let mut es = vec![];
        loop {
            self.ws();
            let mut p = match self.peek() {
                Some('(') => {
                    self.need('(')?;
                    let p = self.alternatives()?;
                    self.need(')')?;
                    p
                }
                Some(c) if c.is_ascii_alphabetic() => ProductionPattern::Rule { rule_name: self.word()? },
                _ => break,
            };
            if self.eat('?') {
                p = ProductionPattern::Optional { inner: Box::new(p) };
            } else if self.eat('*') {
                p = ProductionPattern::ZeroOrMany { inner: Box::new(p) };
            } else if self.eat('+') {
                p = ProductionPattern::OneOrMany { inner: Box::new(p) };
            }
            es.push(p);
        }
        match es.len() {
            0 => self.bad(),
            1 => Ok(es.remove(0)),
            _ => Ok(ProductionPattern::Sequence { elements: es }),
        }
    }
    fn file(mut self) -> R<RuleSet<'a>> {
        let (mut tokens, mut prods, mut entry) = (vec![], vec![], None);
        loop {
            self.ws();
            if self.peek().is_none() {
                break;
            }
            let from = self.pos;
            match self.word()? {
                "entry" => {
                    let name = self.word()?;
                    self.need(';')?;
                    entry = Some(self.spanned(from, EntryRule { name }));
                }
                "token" => {
                    let name = self.word()?;
                    let mut precedence = None;
                    if self.eat('[') {
                        precedence = self.word()?.parse::<u16>().ok();
                        self.need(']')?;
                    }
                    self.need('=')?;
                    self.ws();
                    let pattern = if self.eat('"') {
                        let rest = &self.src[self.pos..];
                        let Some(n) = rest.find('"') else { return self.bad() };
                        self.pos += n + 1;
                        TokenPattern::Literal { characters: rest[..n].chars().collect() }
                    } else {
                        let rest = &self.src[self.pos..];
                        let Some(n) = rest.find(";\n") else { return self.bad() };
                        self.pos += n;
                        regex(&rest[..n])?
                    };
                    self.need(';')?;
                    tokens.push(self.spanned(from, TokenRule { name, precedence, pattern }));
                }
                "prod" => {
                    let name = self.word()?;
                    let mut tag = None;
                    if self.eat('[') {
                        tag = Some(self.word()?);
                        self.need(']')?;
                    }
                    self.need('=')?;
                    let pattern = self.alternatives()?;
                    self.need(';')?;
                    prods.push(self.spanned(from, ProductionRule { name, tag, pattern }));
                }
                _ => return self.bad(),
            }
        }
        match entry {
            Some(e) => Ok(RuleSet::new(e, tokens, prods)),
            None => Err(LapexParsingError::NoEntryRule),
        }
    }
}

fn regex(text: &str) -> R<TokenPattern> {
    let file = format!("token T = {};\nentry s;\nprod s = T;\n", text);
    let r = std::panic::catch_unwind(|| {
        (lapex_input_bootstrap::BootstrapLapexInputParser {})
            .parse_lapex(&file)
            .map(|mut s| {
                let t = s.token_rules.remove(0).inner.pattern;
                match t {
                    TokenPattern::Literal { .. } => TokenPattern::Literal { characters: vec![] },
                    p => p,
                }
            })
    });
    r.unwrap_or(Err(LapexParsingError::IncompleteParsing(String::new())))
}

pub fn read(src: &str) -> R<RuleSet<'_>> {
    P { src, pos: 0 }.file()
}
