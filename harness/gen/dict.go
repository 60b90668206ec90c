package gen

import (
	"strings"

	"verif/lexref"
)

// Known are names a module of the real world is full of: globals, types, methods, and words that are keywords elsewhere.
var Known = func() []string {
	var out []string
	for _, w := range strings.Fields(`
Сообщить Строка Число Дата Булево Тип ТипЗнч Формат СтрДлина СтрНайти СтрЗаменить СтрШаблон СтрРазделить СтрСоединить Лев Прав Сред СокрЛ СокрП СокрЛП ВРег НРег ТРег ПустаяСтрока
Символ КодСимвола Символы ПС Таб ВК ТекущаяДата ТекущаяДатаСеанса Год Месяц День Час Минута Секунда НачалоДня КонецДня НачалоМесяца КонецМесяца ДобавитьМесяц Окр Цел Макс Мин Пи Sqrt Pow Log Exp
Вычислить Eval Execute Массив Структура Соответствие ТаблицаЗначений ДеревоЗначений СписокЗначений Запрос Выборка РезультатЗапроса Выгрузить Выбрать Следующий Текст УстановитьПараметр ФиксированныйМассив ФиксированнаяСтруктура КлючИЗначение Ключ Значение ОписаниеТипов ХранилищеЗначения УникальныйИдентификатор
ЭтотОбъект ЭтаФорма Объект Элементы Команды Параметры Форма Справочники Документы Константы Перечисления РегистрыСведений РегистрыНакопления ПланыСчетов Метаданные ПараметрыСеанса ОбщегоНазначения Ссылка Наименование Код Родитель Владелец Пометка ПометкаУдаления ПустаяСсылка Записать Прочитать Заблокировать Удалить Найти НайтиПоКоду Добавить Вставить Свойство Количество Очистить Скопировать Колонки Строки Индексы Отказ СтандартнаяОбработка ВыполняемыйМетод ОписаниеОповещения ВыполнитьОбработкуОповещения ПоказатьВопрос ИнформацияОбОшибке ОписаниеОшибки ПодробноеПредставлениеОшибки ЗаписьЖурналаРегистрации НачатьТранзакцию ЗафиксироватьТранзакцию ОтменитьТранзакцию ТранзакцияАктивна
Null NULL null True False Undefined undefined nil None If Then ElsIf ElseIf Else EndIf For Each In To Do EndDo While Break Continue Try Except EndTry Raise Return Procedure EndProcedure Function EndFunction Var Val Export New And Or Not Goto Execute
Асинх Ждать Async Await ДобавитьОбработчик УдалитьОбработчик AddHandler RemoveHandler ТогдаИли ИначеЕслиНе КонецПроцедурыФункции Область КонецОбласти Вставка КонецВставки Region EndRegion Сервер Клиент ВебКлиент ТонкийКлиент НаКлиенте НаСервере НаСервереБезКонтекста Перед После Вместо ИзменениеИКонтроль
Да Нет ДА НЕТ Каждый Каждая Для1 Изз Пусто Пустой Конец Начало Выход Стоп Функ Проц Парам Перемен Возврата Прерывание Исключения Попытки Цикла КонецЦикл Новая Новое Нового Знак Значения Экспорту Импорт Модуль Класс Тест ТестФункция main init func var type range map string int float64 bool error
a A b B i j k n x X y е Е о О с С р Р х Х у У к К м М т Т в В н Н _ __ ___ _1 __1 Ё ё Ёлка елка Ёж ЁЁ`) {
		if !lexref.IsKeyword(w) {
			out = append(out, w)
		}
	}
	return out
}()
